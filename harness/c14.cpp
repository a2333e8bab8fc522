// arithmetic of unpacked numbers: error bounds, exactness, special values, algebra
#include "fw.hpp"
template <class U> ref::Num rn(const U&u)
{
    constexpr int FB=U::FT_bits; ref::Num x; if(u.isNaN()) { x.k=ref::NAN_; return x; } if(u.isInfinity()) { x.k=ref::INF; x.neg=u.negativeSign; return x; } if(u.isZero()) { x.k=ref::ZERO; return x; }
    x.k=ref::FIN; x.neg=u.negativeSign; x.e=u.exponent; x.m=(((u128)1)<<127)|(((u128)u.fraction)<<(127-FB)); return x;
}
static ref::Num pos(ref::Num x) { if(x.k==ref::FIN) x.neg=false; return x; }
static ref::Num p2(long e) { ref::Num x; x.k=ref::FIN; x.e=e; x.m=((u128)1)<<127; return x; }
static bool fits(const ref::Num&x,int fb) { return x.k!=ref::FIN || (!x.st && (x.m<<(1+fb))==0); }
// |g| within [1-2^-a, 1+2^-b] of |x| with the same sign
static bool within(const ref::Num&g,const ref::Num&x,long a,long b)
{
    if(g.k!=ref::FIN||x.k!=ref::FIN||g.neg!=x.neg) return false; ref::Num p=pos(x), q=pos(g);
    ref::Num lo=ref::add(p,ref::neg(ref::shift(p2(x.e),1-a))), hi=b<0?p:ref::add(p,ref::shift(p2(x.e),1-b));
    return ref::cmp(q,lo)>=0 && ref::cmp(q,hi)<=0;
}
template <class U> bool ueq(const U&a,const U&b) { return a.isNaN()?b.isNaN():a.type==b.type&&(a.isZero()||a.negativeSign==b.negativeSign)&&(!a.isRegular()||(a.exponent==b.exponent&&a.fraction==b.fraction)); }
template <class FT,class ET> void go()
{
    using U=Unpacked<FT,ET>; constexpr int B=U::FT_bits; Rec k(uname<FT,ET>()); mon::Rng r(mon::hash3(mon::seed(),k.hc,1));
    const long lim= sizeof(ET)==2?7000:1000000;
    auto key=[&](const char*o,const U&a,const U&b){ k.begin(o,(int64_t)a.fraction,(int64_t)b.fraction,(int64_t)((uint64_t)(int64_t)a.exponent<<32)^(uint32_t)(int32_t)b.exponent^(a.negativeSign?(1LL<<62):0)^(b.negativeSign?(1LL<<61):0)); };
    auto pick=[&](bool full){ ref::Num x=rnum(r,full?B:B-2,-lim,lim); switch(r.below(4)) { case 0: x.e=r.range(-3,3); break; case 1: x.e=r.range(-B-4,B+4); break; default:; } return x; };
    auto D=[&](const U&a,const U&b,const U&g){ return ustr(g)+" for ("+ustr(a)+") and ("+ustr(b)+")"; };
    auto one=[&](const ref::Num&x,const ref::Num&y,bool full){
        U a=umake<U>(x), b=umake<U>(y);
        { ref::Num e=ref::mul(x,y); key("mul",a,b); U g=a*b; bool ok=full?within(rn(g),e,B-4,-1):within(rn(g),e,B-2,-1); if(!full&&fits(e,B-2)) ok=ok&&ref::cmp(rn(g),e)==0; k.ck(ok,ref::str(e),D(a,b,g)); key("mul_comm",a,b); k.ck(ueq(b*a,g),"a*b","b*a"); key("mul_sign",a,b); k.ck(ueq((-a)*b,-g)&&ueq(a*(-b),-g),"-(a*b)","(-a)*b"); }
        { ref::Num e=ref::div(x,y); key("div",a,b); U g=a/b; bool ok=full?within(rn(g),e,B-4,B-4):same(g,cut(e,B)); k.ck(ok,ref::str(e),D(a,b,g)); key("div_sign",a,b); k.ck(ueq((-a)/b,-g)&&ueq(a/(-b),-g),"-(a/b)","(-a)/b"); }
        { ref::Num e=ref::div(ref::from_i64(1),x); key("inv",a,b); U g=a.inv(); bool ok=full?within(rn(g),e,B-4,B-4):same(g,cut(e,B)); k.ck(ok,ref::str(e),D(a,a,g)); key("inv_sign",a,b); k.ck(ueq((-a).inv(),-g),"-(1/a)","1/(-a)"); }
        auto sum=[&](const char*o,const ref::Num&p,const ref::Num&q,const U&g){
            // unit of the aligned operands
            long me=p.e>q.e?p.e:q.e; ref::Num u=p2(me-(B-2)), e=ref::add(p,q), w=rn(g); key(o,a,b); bool ok; bool ss=p.neg==q.neg;
            if(w.k==ref::ZERO) { ok = e.k==ref::ZERO || (!ss && ref::cmp(pos(e),ref::shift(u,1))<0); }
            else if(w.k!=ref::FIN) ok=false;
            else { ref::Num t=e; t.st=false; ref::Num d=ref::add(w,ref::neg(t)); ok= d.k==ref::ZERO || ref::cmp(pos(d),ref::shift(u,1))<0; if(ss&&d.k==ref::FIN) ok=ok&&(d.neg!=p.neg); }
            auto al=[&](const ref::Num&z){ long low=z.e-(me-(B-2)); return low>=0 && (low>=127 || (z.m<<(1+low))==0); };
            if(al(p)&&al(q)) { ok=ok&&(e.k==ref::ZERO?w.k==ref::ZERO:w.k==ref::FIN&&ref::cmp(w,e)==0); mon::klass("exact sum"); } else mon::klass("rounded sum");
            k.ck(ok,ref::str(e),D(a,b,g)); };
        U s=a+b; sum("add",x,y,s); U d=a-b; sum("sub",x,ref::neg(y),d);
        key("add_comm",a,b); k.ck(ueq(b+a,s),ustr(s),ustr(b+a)); key("sub_anti",a,b); k.ck(ueq(b-a,-d),ustr(-d),ustr(b-a)); key("add_sign",a,b); k.ck(ueq((-a)+(-b),-s),ustr(-s),ustr((-a)+(-b)));
        { U t=a; t+=b; key("add_assign",a,b); k.ck(ueq(t,s),ustr(s),ustr(t)); t=a; t-=b; key("sub_assign",a,b); k.ck(ueq(t,d),ustr(d),ustr(t)); t=a; t+=t; U t2=a+a; key("add_self",a,b); k.ck(ueq(t,t2),ustr(t2),ustr(t)); t=a; t-=t; key("sub_self",a,b); k.ck(t.isZero(),"0",ustr(t)); t=a; key("assign_result",a,b); k.ck(&(t+=b)==&t&&&(t-=b)==&t,"the object assigned to","something else"); U t3=b; t=a; t=(t3=t); key("assign",a,b); k.ck(ueq(t,a)&&ueq(t3,a),ustr(a),ustr(t)); }
        key("cancel",a,b); U z=a-a; k.ck(z.isZero(),"0",ustr(z)); key("add_zero",a,b); k.ck(ueq(a+U::zero(),a)&&ueq(U::zero()+a,a)&&ueq(a-U::zero(),a)&&ueq(U::zero()-a,-a),"a","a+0");
        key("mul_one",a,b); U m=a*U::one(); k.ck(full?within(rn(m),x,B-3,-1):ueq(m,a),ustr(a),ustr(m)); key("div_one",a,b); U q=a/U::one(); k.ck(full?within(rn(q),x,B-3,-1):ueq(q,a),ustr(a),ustr(q)); key("div_self",a,b); U o=a/a; k.ck(ueq(o,U::one()),"1",ustr(o));
        key("eq",a,b); bool e=x.neg==y.neg&&x.e==y.e&&x.m==y.m; k.ck((a==b)==e&&(a!=b)==!e&&(a==a)&&!(a!=a),"equality","-"); key("neg",a,b); U n=-a; k.ck(n.isRegular()&&n.negativeSign!=a.negativeSign&&n.exponent==a.exponent&&n.fraction==a.fraction&&ueq(-n,a),"-a",ustr(n));
        key("pred",a,b); k.ck(a.isRegular()&&!a.isZero()&&!a.isNaN()&&!a.isInfinity()&&a.isPositive()==!x.neg,"regular","-");
    };
    for(long i=0,n=mon::scale(60000,1500000);i<n;i++)
    {
        bool full=r.next()&1; ref::Num x=pick(full), y=pick(full);
        switch(r.below(6)) { case 0: y=x; y.neg=r.next()&1; break; case 1: y.e=x.e; break; case 2: y.e=x.e+r.range(-2,2); break; case 3: y.e=x.e+r.range(-B-2,B+2); break; case 4: { y.e=x.e; y.m=x.m^(((u128)1)<<(126-r.range(0,full?B-1:B-3))); break; } default:; }
        one(x,y,full); mon::klass(full?"full width fraction":"fraction with spare bits");
    }
    if(B==8) for(int f1=0;f1<256;f1+=mon::thorough()?1:4) for(int f2=0;f2<256;f2+=4) for(int d=-12;d<=12;d+=mon::thorough()?1:3) { if(mon::thin()) continue; ref::Num x=p2(3), y=p2(3+d); x.m|=((u128)f1)<<119; y.m|=((u128)f2)<<119; y.neg=(f1^f2)&4; one(x,y,(f1|f2)&3); }
    // special values
    std::vector<ref::Num> sp; { ref::Num z; sp.push_back(z); z.k=ref::NAN_; sp.push_back(z); z.k=ref::INF; sp.push_back(z); z.neg=true; sp.push_back(z); }
    size_t ns=sp.size(); for(int i=0;i<300;i++) sp.push_back(pick(true));
    for(size_t i=0;i<sp.size();i++) for(size_t j=0;j<sp.size();j++) { if(i>=ns&&j>=ns) continue; U a=umake<U>(sp[i]), b=umake<U>(sp[j]); auto c=[&](const char*o,const U&g,const ref::Num&e){ key(o,a,b); bool ok=e.k==ref::FIN?ueq(g,umake<U>(e)):same(g,e); k.ck(ok,ref::str(e),D(a,b,g)); };
        { U t=a; t+=b; c("sp_add_assign",t,ref::add(sp[i],sp[j])); t=a; t-=b; c("sp_sub_assign",t,ref::add(sp[i],ref::neg(sp[j]))); t=a; t+=t; c("sp_add_self",t,i<ns?ref::add(sp[i],sp[i]):rn(a+a)); t=a; t-=t; c("sp_sub_self",t,ref::add(sp[i],ref::neg(sp[i]))); }
        c("sp_add",a+b,ref::add(sp[i],sp[j])); c("sp_sub",a-b,ref::add(sp[i],ref::neg(sp[j]))); c("sp_mul",a*b,ref::mul(sp[i],sp[j])); c("sp_div",a/b,ref::div(sp[i],sp[j]));
        bool e=sp[i].k==sp[j].k&&sp[i].k!=ref::NAN_&&(sp[i].k==ref::ZERO||sp[i].neg==sp[j].neg); key("sp_eq",a,b); k.ck((a==b)==e&&(a!=b)==!e,"equality","-"); mon::klass("special "+ref::str(sp[i<ns?i:j])); }
    for(size_t i=0;i<ns;i++) { U a=umake<U>(sp[i]); key("sp_inv",a,a); U g=a.inv(); k.ck(sp[i].k==ref::ZERO?g.isInfinity():sp[i].k==ref::INF?g.isZero():g.isNaN(),"inverse",ustr(g)); key("sp_neg",a,a); k.ck(same(-a,ref::neg(sp[i])),"negation",ustr(-a)); key("sp_pred",a,a); k.ck(a.isNaN()==(sp[i].k==ref::NAN_)&&a.isInfinity()==(sp[i].k==ref::INF)&&a.isZero()==(sp[i].k==ref::ZERO)&&!a.isRegular(),"class","-"); }
    // normalisation of a denormalised fraction f/2^(B-1)*2^e
    for(long i=0,n=mon::scale(20000,300000);i<n;i++) { FT f=(FT)(r.next()>>(64-B)); f>>=r.below(B); if(r.below(50)==0) f=0; long e=r.range(-500,500); bool s=r.next()&1; k.begin("normalized",(int64_t)f,e,s); U u=U((ET)e,f,s).normalized(); ref::Num x=ref::shift(ref::from_fixed(0,0),0); if(f) { x.k=ref::FIN; x.neg=s; x.m=((u128)f)<<(128-B); x.e=e; while(!(x.m>>127)) { x.m<<=1; x.e--; } } k.ck(same(u,x),ref::str(x),ustr(u)); }
}
int main(int c,char**v)
{
    mon::init(c,v); int w=c>1?atoi(v[1]):-1;
    switch(w) { case 0: go<uint8_t,int>(); break; case 1: go<uint16_t,int>(); break; case 2: go<uint32_t,int>(); break; case 3: go<uint64_t,int>(); break; case 4: go<uint8_t,int16_t>(); break; case 5: go<uint32_t,int16_t>(); break; case 6: go<uint64_t,int64_t>(); break; case 7: go<uint16_t,int16_t>(); break; }
    return mon::finish();
}
