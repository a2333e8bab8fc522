// addition / subtraction
#include "pw.hpp"
template <class P> void workload()
{
    Ck<P> k; auto f=k.f; Gen g(f,salt<P>("add"));
    const long cnt=mon::scale(40000,500000);
    g.binary(cnt,mon::thorough()?9:8,[&](int64_t a,int64_t b){
        ref::Num x=ref::decode(f,a), y=ref::decode(f,b);
        if(x.k==ref::NAN_||x.k==ref::INF||y.k==ref::NAN_||y.k==ref::INF) { P u=mkp<P>(a), v=mkp<P>(b); k.begin("add_special",a,b); k.eq((u+v).v,ref::trunc(f,ref::add(x,y)),false); k.begin("sub_special",a,b); k.eq((u-v).v,ref::trunc(f,ref::add(x,ref::neg(y))),false); return; }
        P pa=mkp<P>(a), pb=mkp<P>(b); bool nt=a&&b;
        ref::Num s=ref::add(x,y); ref::Enc e=ref::encode(f,s);
        k.begin("add",a,b); P r=pa+pb;
        if(x.neg==y.neg) k.eq(r.v,e.lo,nt); else k.in(r.v,e,nt);
        k.begin("add_assign",a,b); P q=pa; q+=pb; k.eq(q.v,r.v,nt);
        ref::Num d=ref::add(x,ref::neg(y)); ref::Enc ed=ref::encode(f,d);
        k.begin("sub",a,b); P w=pa-pb; if(x.neg!=y.neg) k.eq(w.v,ed.lo,nt); else k.in(w.v,ed,nt);
        k.begin("add_comm",a,b); P c=pb+pa; k.eq(c.v,r.v,nt);
        k.begin("add_neg",a,b); P n=(-pa)+(-pb); k.eq(n.v,-(int64_t)r.v,nt);
        k.begin("sub_assign_like",a,b); P t=pa; t+=-pb; k.eq(t.v,w.v,nt);
        k.begin("sub_anti",a,b); P m=pb-pa; k.eq(m.v,-(int64_t)w.v,nt);
    });
    g.unary(mon::scale(3000,50000),[&](int64_t a){ ref::Num x=ref::decode(f,a); if(x.k==ref::NAN_||x.k==ref::INF) return; P pa=mkp<P>(a);
        k.begin("add_zero",a); k.eq((pa+P::zero()).v,a,a!=0); k.begin("zero_add",a); k.eq((P::zero()+pa).v,a,a!=0); k.begin("sub_self",a); k.eq((pa-pa).v,0,a!=0); k.begin("zero_sub",a); k.eq((P::zero()-pa).v,-a,a!=0);
        k.begin("add_self_assign",a); P q=pa; q+=q; k.eq(q.v,ref::trunc(f,ref::shift(x,1)),a!=0); });
}
WORKLOAD_MAIN
