// reciprocal, half, twice, and the free function forms
#include "pw.hpp"
template <class P> void workload()
{
    Ck<P> k; auto f=k.f; Gen g(f,salt<P>("inv"));
    ref::Num one=ref::from_i64(1);
    g.unary(mon::scale(40000,1000000),[&](int64_t a){
        ref::Num x=ref::decode(f,a); if(x.k!=ref::FIN) return;
        P p=mkp<P>(a);
        int64_t e=ref::trunc(f,ref::div(one,x));
        k.begin("inv",a); P r=p.inv(); k.eq(r.v,e);
        k.begin("inv_op",a); k.eq((~p).v,e);
        k.begin("inv_fn",a); k.eq((inv(p)).v,e);
        k.begin("inv_neg",a); k.eq((-p).inv().v,-e);
        k.begin("inv_div",a); k.eq((P::one()/p).v,e);
        k.begin("half",a); P h=p.half(); k.eq(h.v,ref::trunc(f,ref::shift(x,-1)));
        k.begin("twice",a); P t=p.twice(); k.eq(t.v,ref::trunc(f,ref::shift(x,1)));
        k.begin("inv_inv_pow2",a); if((x.m<<1)==0) { int64_t back=ref::trunc(f,ref::div(one,ref::decode(f,e))); k.eq(r.inv().v,back); mon::klass("power of two"); }
        mon::klass(a>0?(e==1?"inv saturates low":e==ref::MAXPOS(f)?"inv saturates high":"regular"):"negative");
    });
}
WORKLOAD_MAIN
