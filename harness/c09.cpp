// ordering, negation, absolute value, predicates
#include "pw.hpp"
template <class P> void workload()
{
    Ck<P> k; auto f=k.f; Gen g(f,salt<P>("ord"));
    g.binary(mon::scale(40000,600000),8,[&](int64_t a,int64_t b){
        ref::Num x=ref::decode(f,a), y=ref::decode(f,b); P p=mkp<P>(a), q=mkp<P>(b);
        bool un = x.k==ref::NAN_||y.k==ref::NAN_;
        if(f.spec==ref::WithInf && (x.k==ref::INF||y.k==ref::INF)) { k.begin("inf_eq",a,b); k.ok((p==q)==(a==b) && (p!=q)==(a!=b),"equality of the unsigned infinity"); return; }
        int c = un?0:ref::cmp(x,y); auto o=[&](const char*n,bool got,bool exp){ k.begin(n,a,b); k.ok(got==exp,exp?"true":"false"); };
        o("eq",p==q,!un&&c==0); o("ne",p!=q,un||c!=0); o("lt",p<q,!un&&c<0); o("le",p<=q,!un&&c<=0); o("gt",p>q,!un&&c>0); o("ge",p>=q,!un&&c>=0);
        mon::klass(un?"unordered":c<0?"less":c>0?"greater":"equal");
        if(un) return;
        k.begin("min",a,b); k.eq(std::min(p,q).v,c<=0?a:b); k.begin("max",a,b); k.eq(std::max(p,q).v,c>=0?a:b);
        k.begin("neg_order",a,b); k.ok((-p < -q)==(c>0),"-a<-b iff a>b");
    });
    g.unary(mon::scale(10000,200000),[&](int64_t a){
        ref::Num x=ref::decode(f,a); P p=mkp<P>(a); bool nt=x.k==ref::FIN;
        k.begin("neg",a); k.eq((-p).v,ref::trunc(f,ref::neg(x)),nt); k.begin("neg_fn",a); k.eq(neg(p).v,ref::trunc(f,ref::neg(x)),nt); k.begin("neg_neg",a); k.eq((-(-p)).v,a,nt);
        ref::Num y=x; y.neg=false; k.begin("abs",a); k.eq(p.abs().v,ref::trunc(f,y),nt); k.begin("std_abs",a); k.eq(std::abs(p).v,ref::trunc(f,y),nt);
        auto o=[&](const char*n,bool got,bool exp){ k.begin(n,a); k.ok(got==exp,exp?"true":"false",nt); };
        o("isNaN",p.isNaN(),x.k==ref::NAN_); o("isinfinity",p.isinfinity(),x.k==ref::INF); o("iszero",p.iszero(),a==0); o("isone",p.isone(),x.k==ref::FIN&&!x.neg&&x.e==0&&(x.m<<1)==0);
        if(x.k==ref::FIN||x.k==ref::ZERO||(x.k==ref::INF&&f.spec==ref::WithNanInf)) o("isnegative",p.isnegative(),x.neg);
        o("hasNaN",p.hasNaN(),f.spec!=ref::WithInf);
    });
}
WORKLOAD_MAIN
