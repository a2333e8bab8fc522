// special values: the algebra of zero, NaN and infinity for each policy, and closure of finite arithmetic
#include "pw.hpp"
template <class P> void workload()
{
    Ck<P> k; auto f=k.f; Gen g(f,salt<P>("special"));
    std::vector<int64_t> sp={0,ref::TOP(f)}; if(f.spec==ref::WithNanInf) { sp.push_back(ref::PINF(f)); sp.push_back(ref::NINF(f)); }
    auto name=[&](const ref::Num&x)->std::string{ return x.k==ref::ZERO?"0":x.k==ref::NAN_?"nan":x.k==ref::INF?(x.neg?"-inf":"inf"):x.neg?"-fin":"fin"; };
    auto pair=[&](int64_t a,int64_t b){
        ref::Num x=ref::decode(f,a), y=ref::decode(f,b); P pa=mkp<P>(a), pb=mkp<P>(b);
        mon::klass(name(x)+" op "+name(y));
        k.begin("add",a,b); k.eq((pa+pb).v,ref::trunc(f,ref::add(x,y)));
        k.begin("add_assign",a,b); { P q=pa; q+=pb; k.eq(q.v,ref::trunc(f,ref::add(x,y))); }
        k.begin("sub",a,b); k.eq((pa-pb).v,ref::trunc(f,ref::add(x,ref::neg(y))));
        k.begin("mul",a,b); { P q=pa*pb; k.eq(q.v,ref::trunc(f,ref::mul(x,y))); }
        k.begin("mul_assign",a,b); { P q=pa; q*=pb; k.eq(q.v,ref::trunc(f,ref::mul(x,y))); }
        k.begin("div",a,b); k.eq((pa/pb).v,ref::trunc(f,ref::div(x,y)));
        k.begin("div_assign",a,b); { P q=pa; q/=pb; k.eq(q.v,ref::trunc(f,ref::div(x,y))); }
    };
    auto one=[&](int64_t a){
        ref::Num x=ref::decode(f,a); P p=mkp<P>(a);
        k.begin("inv",a); k.eq(p.inv().v, x.k==ref::ZERO?ref::trunc(f,ref::div(ref::from_i64(1),x)):x.k==ref::INF?0:a);
        k.begin("half",a); k.eq(p.half().v,a); k.begin("twice",a); k.eq(p.twice().v,a);
        k.begin("neg",a); k.eq((-p).v,ref::trunc(f,ref::neg(x))); k.begin("neg_fn",a); k.eq(neg(p).v,ref::trunc(f,ref::neg(x)));
        k.begin("abs",a); { ref::Num y=x; y.neg=false; k.eq(p.abs().v,ref::trunc(f,y)); }
        k.begin("from_special_double",a); double d=x.k==ref::NAN_?NAN:x.k==ref::INF?(x.neg?-INFINITY:INFINITY):0.0; k.eq(P(d).v,ref::trunc(f,x)); k.begin("from_special_float",a); k.eq(P((float)d).v,ref::trunc(f,x));
        k.begin("to_int",a); k.eq((int)p,0);
    };
    for(int64_t a: sp) { one(a); for(int64_t b: sp) pair(a,b); for(int64_t b: g.sp) { pair(a,b); pair(b,a); } for(int i=0;i<200;i++) { int64_t b=g.pick(); pair(a,b); pair(b,a); } }
    auto fma3=[&](int64_t a,int64_t b,int64_t c){ ref::Num x=ref::decode(f,a),y=ref::decode(f,b),z=ref::decode(f,c); ref::Num m=ref::mul(x,y);
        ref::Num s=ref::add(m,z); if(s.k==ref::FIN) return; if(m.k==ref::FIN && z.k==ref::FIN) return; k.begin("fma",a,b,c); k.eq(fma(mkp<P>(a),mkp<P>(b),mkp<P>(c)).v,ref::trunc(f,s)); };
    std::vector<int64_t> s2=sp; for(int i=0;i<10;i++) s2.push_back(g.byregime()); for(int64_t a:s2) for(int64_t b:s2) for(int64_t c:s2) fma3(a,b,c);
    // closure: finite operands never produce a non finite or non canonical result, and never lose a non zero exact result
    auto fin=[&](int64_t a){ auto q=ref::decode(f,a).k; return q==ref::FIN||q==ref::ZERO; };
    g.binary(mon::scale(15000,300000),7,[&](int64_t a,int64_t b){ if(!fin(a)||!fin(b)) return; P pa=mkp<P>(a), pb=mkp<P>(b); ref::Num x=ref::decode(f,a), y=ref::decode(f,b);
        auto c=[&](const char*o,P r,bool exactzero){ k.begin(o,a,b); k.ok(ref::canonical(f,r.v)&&fin(r.v)&&((r.v==0)==exactzero),exactzero?"exactly zero":"a finite non zero posit",!exactzero); };
        c("closed_add",pa+pb,ref::add(x,y).k==ref::ZERO); c("closed_sub",pa-pb,ref::add(x,ref::neg(y)).k==ref::ZERO);
        { int64_t z=g.pick(); if(fin(z)) { k.begin("closed_fma",a,b,z); P r=fma(pa,pb,mkp<P>(z)); k.ok(ref::canonical(f,r.v)&&fin(r.v),"a finite posit"); } }
        c("closed_mul",pa*pb,a==0||b==0); if(b) c("closed_div",pa/pb,a==0); });
    g.unary(mon::scale(5000,100000),[&](int64_t a){ P p=mkp<P>(a);
        auto c=[&](const char*o,P r,bool zero){ k.begin(o,a); k.ok(ref::canonical(f,r.v)&&fin(r.v)&&((r.v==0)==zero),zero?"exactly zero":"a finite non zero posit",!zero); };
        if(fin(a)) { c("closed_half",p.half(),a==0); c("closed_twice",p.twice(),a==0); c("closed_neg",-p,a==0); c("closed_abs",p.abs(),a==0); if(a) c("closed_inv",p.inv(),false); c("closed_next",p.next(),a==-1); c("closed_prev",p.prev(),a==1);
            if(f.N<=40&&a>=0&&(long)(f.N-2)*(1L<<f.es)<=1000) c("closed_sqrt",std::sqrt(p),a==0);
            // NaN, or the single special value, absorbs everything
            if(a) { ref::Num x=ref::decode(f,a); auto n=[&](const char*o,P r,const ref::Num&e){ k.begin(o,a); k.eq(r.v,ref::trunc(f,e)); }; ref::Num t=ref::decode(f,ref::TOP(f)); P s=mkp<P>(ref::TOP(f));
              n("special_add",p+s,ref::add(x,t)); n("special_addl",s+p,ref::add(t,x)); n("special_sub",p-s,ref::add(x,ref::neg(t))); n("special_subl",s-p,ref::add(t,ref::neg(x))); n("special_mul",s*p,ref::mul(t,x)); n("special_div",s/p,ref::div(t,x)); n("special_divr",p/s,ref::div(x,t)); n("zero_div",P::zero()/p,ref::div(ref::from_i64(0),x)); n("div_zero",p/P::zero(),ref::div(x,ref::from_i64(0))); } }
        else if(f.N<=40&&(long)(f.N-2)*(1L<<f.es)<=1000) { k.begin("special_sqrt",a); ref::Num x=ref::decode(f,a); k.eq(std::sqrt(p).v,x.k==ref::INF&&!(x.neg&&f.spec==ref::WithNanInf)?ref::PINF(f):ref::TOP(f),false); k.begin("special_next",a); k.eq(p.next().v,a,false); k.begin("special_prev",a); k.eq(p.prev().v,a,false); } });
}
WORKLOAD_MAIN
