// division
#include "pw.hpp"
template <class P> void workload()
{
    Ck<P> k; auto f=k.f; Gen g(f,salt<P>("div"));
    const P one=P::one();
    g.binary(mon::scale(40000,600000),mon::thorough()?9:8,[&](int64_t a,int64_t b){
        ref::Num x=ref::decode(f,a), y=ref::decode(f,b);
        if(x.k==ref::NAN_||x.k==ref::INF||y.k==ref::NAN_||y.k==ref::INF||b==0) { k.begin("div_special",a,b); k.eq((mkp<P>(a)/mkp<P>(b)).v,ref::trunc(f,ref::div(x,y)),false); return; }
        P pa=mkp<P>(a), pb=mkp<P>(b); bool nt=a!=0; int64_t e=ref::trunc(f,ref::div(x,y));
        k.begin("div",a,b); P r=pa/pb; k.eq(r.v,e,nt);
        k.begin("div_assign",a,b); P q=pa; q/=pb; k.eq(q.v,e,nt);
        k.begin("div_neg",a,b); P n=pa/(-pb); k.eq(n.v,-e,nt);
        k.begin("div_neg2",a,b); P m=(-pa)/(-pb); k.eq(m.v,e,nt);
        if(nt) mon::klass(e==ref::MAXPOS(f)||e==-ref::MAXPOS(f)?"max":e==1||e==-1?"min":"interior");
    });
    g.unary(mon::scale(3000,50000),[&](int64_t a){ ref::Num x=ref::decode(f,a); if(x.k==ref::NAN_||x.k==ref::INF||a==0) return; P pa=mkp<P>(a);
        k.begin("div_one",a); k.eq((pa/one).v,a); k.begin("div_self",a); k.eq((pa/pa).v,one.v);
        k.begin("div_self_assign",a); P q=pa; q/=q; k.eq(q.v,one.v); });
}
WORKLOAD_MAIN
