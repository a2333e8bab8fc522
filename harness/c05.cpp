// multiplication
#include "pw.hpp"
template <class P> void workload()
{
    Ck<P> k; auto f=k.f; Gen g(f,salt<P>("mul"));
    const P one=P::one();
    g.binary(mon::scale(40000,600000),mon::thorough()?9:8,[&](int64_t a,int64_t b){
        ref::Num x=ref::decode(f,a), y=ref::decode(f,b);
        if(x.k==ref::NAN_||x.k==ref::INF||y.k==ref::NAN_||y.k==ref::INF) { k.begin("mul_special",a,b); P r=mkp<P>(a)*mkp<P>(b); k.eq(r.v,ref::trunc(f,ref::mul(x,y)),false); return; }
        P pa=mkp<P>(a), pb=mkp<P>(b); bool nt=a&&b; int64_t e=ref::trunc(f,ref::mul(x,y));
        k.begin("mul",a,b); P r=pa*pb; k.eq(r.v,e,nt);
        k.begin("mul_assign",a,b); P q=pa; q*=pb; k.eq(q.v,e,nt);
        k.begin("mul_comm",a,b); P c=pb*pa; k.eq(c.v,e,nt);
        k.begin("mul_neg",a,b); P n=(-pa)*pb; k.eq(n.v,-e,nt);
        if(nt) mon::klass(e==ref::MAXPOS(f)||e==-ref::MAXPOS(f)?"max":e==1||e==-1?"min":"interior");
    });
    g.unary(mon::scale(3000,50000),[&](int64_t a){ ref::Num x=ref::decode(f,a); if(x.k==ref::NAN_||x.k==ref::INF) return; P pa=mkp<P>(a);
        k.begin("mul_one",a); k.eq((pa*one).v,a,a!=0); k.begin("mul_mone",a); k.eq((pa*P::mone()).v,-a,a!=0);
        k.begin("mul_self_assign",a); P q=pa; q*=q; k.eq(q.v,ref::trunc(f,ref::mul(x,x)),a!=0); });
}
WORKLOAD_MAIN
