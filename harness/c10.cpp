// neighbours, constants, numeric limits
#include "pw.hpp"
template <class P> void workload()
{
    Ck<P> k; auto f=k.f; Gen g(f,salt<P>("nb")); using L=std::numeric_limits<P>;
    const int64_t mx=ref::MAXPOS(f), lo=-mx;
    g.unary(mon::scale(20000,400000),[&](int64_t a){
        bool fin=a>=lo&&a<=mx; P p=mkp<P>(a);
        k.begin("next",a); P n=p.next(); k.eq(n.v,!fin||a==mx?a:a+1,fin); k.begin("prev",a); P r=p.prev(); k.eq(r.v,!fin||a==lo?a:a-1,fin);
        if(fin&&a<mx) { k.begin("next_prev",a); k.eq(n.prev().v,a); k.begin("next_above",a); k.ok(ref::cmp(ref::decode(f,n.v),ref::decode(f,a))>0 && n>p,"next(x)>x"); }
        if(fin&&a>lo) { k.begin("prev_next",a); k.eq(r.next().v,a); k.begin("prev_below",a); k.ok(ref::cmp(ref::decode(f,r.v),ref::decode(f,a))<0 && r<p,"prev(x)<x"); }
        mon::klass(fin?(a==mx?"max":a==lo?"lowest":"finite"):"special");
    });
    auto c=[&](const char*n,int64_t got,int64_t exp){ k.begin(n,0); k.eq(got,exp); mon::klass(n); };
    auto num=[&](double d){ return ref::trunc(f,ref::from_double(d)); };
    c("zero",P::zero().v,0); c("one",P::one().v,num(1)); c("mone",P::mone().v,num(-1)); 
    if(!(f.N==3&&f.spec==ref::WithNanInf)) c("two",P::two().v,num(2));
    c("onehalf",P::onehalf().v,num(0.5)); c("max",P::max().v,mx); c("min",P::min().v,1); c("lowest",P::lowest().v,lo);
    c("nan",P::nan().v,ref::TOP(f)); c("inf",P::inf().v,ref::PINF(f)); c("pinf",P::pinf().v,ref::PINF(f)); c("ninf",P::ninf().v,ref::NINF(f)); c("infinity",P::infinity().v,ref::PINF(f));
    c("L::min",L::min().v,1); c("L::max",L::max().v,mx); c("L::lowest",L::lowest().v,lo); c("L::denorm_min",L::denorm_min().v,1); c("L::infinity",L::infinity().v,ref::PINF(f)); c("L::quiet_NaN",L::quiet_NaN().v,ref::TOP(f));
    c("L::has_infinity",L::has_infinity,f.spec!=ref::WithNan); c("L::has_quiet_NaN",L::has_quiet_NaN,f.spec!=ref::WithInf); c("L::is_signed",L::is_signed,1); c("L::is_integer",L::is_integer,0); c("L::is_exact",L::is_exact,0); c("L::radix",L::radix,2); c("L::is_specialized",L::is_specialized,1);
    c("L::has_signaling_NaN",L::has_signaling_NaN,0); c("L::is_iec559",L::is_iec559,0); c("L::is_modulo",L::is_modulo,0); c("L::has_denorm_loss",L::has_denorm_loss,0); if(f.N>3) { k.begin("L::digits10",0); k.ok(L::digits10<=(f.N-3)*0.30103&&L::digits10>(f.N-3)*0.30103-2,"the decimal digits of the fraction of one"); }
    k.begin("hasNaN",0); k.ok(P().hasNaN()==(f.spec!=ref::WithInf)&&P::withnan==(f.spec!=ref::WithInf)&&(int)P::vtotalbits==f.N&&(int)P::vesbits==f.es,"the parameters of the configuration");
    c("L::max_exponent",L::max_exponent,(long)ref::decode(f,mx).e); c("L::min_exponent",L::min_exponent,(long)ref::decode(f,1).e);
    if(f.N>3) { int64_t one=num(1); ref::Num d=ref::add(ref::decode(f,one+1),ref::decode(f,-one)); int64_t e=one+1<=mx?ref::trunc(f,d):0; c("L::epsilon",L::epsilon().v,e); }
}
WORKLOAD_MAIN
