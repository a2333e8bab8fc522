// unit range and sigmoid shortcuts
#include "pw.hpp"
template <class P> void workload()
{
    Ck<P> k; auto f=k.f; Gen g(f,salt<P>("sig")); const int64_t mx=ref::MAXPOS(f), one=((int64_t)1)<<(f.N-2), half=((int64_t)1)<<(f.N-1);
    ref::Num n1=ref::from_i64(1); int64_t last=-1,lastv=0,lasts=-1; bool sweep=f.N<=16;
    g.unary(mon::scale(40000,1000000),[&](int64_t v){
        ref::Num x=ref::decode(f,v); P p=mkp<P>(v); bool fin=x.k==ref::FIN||x.k==ref::ZERO; if(!fin) { mon::klass("special"); return; }
        bool unit=v>=0&&ref::cmp(x,n1)<=0; k.begin("isUnitRange",v); k.ok(p.isUnitRange()==unit,unit?"true":"false",v!=0);
        if(f.es!=0) return;
        k.begin("pseudosigmoid",v); int64_t s=p.pseudosigmoid().v, sp=p.pseudosoftplus().v; k.eq(s,(v+half)>>2); k.begin("pseudosoftplus",v); k.eq(sp,(v+half)>>1);
        ref::Num y=ref::decode(f,s); k.begin("sigmoid_range",v); k.ok(s>=0&&s<=one&&ref::cmp(y,n1)<=0,"in [0,1]");
        double xd=ref::to_double(x), yd=ref::to_double(y), e=1/(1+std::exp(-xd)); k.begin("sigmoid_error",v); k.ok(std::fabs(yd-e)<=0.075+std::ldexp(1.0,2-f.N),"close to the logistic function");
        if(v==0) { k.begin("sigmoid_zero",v); k.ok(ref::to_double(y)==0.5,"one half",true); }
        if(sweep) { if(last>=0) { k.begin("sigmoid_monotone",lastv,v); k.ok(s>=last,"non decreasing"); k.begin("softplus_monotone",lastv,v); k.ok(sp>=lasts,"non decreasing"); } last=s; lasts=sp; lastv=v; }
        else if(v<mx) { k.begin("sigmoid_monotone",v,v+1); k.ok(mkp<P>(v+1).pseudosigmoid().v>=s,"non decreasing"); k.begin("softplus_monotone",v,v+1); k.ok(mkp<P>(v+1).pseudosoftplus().v>=sp,"non decreasing"); }
        mon::klass(unit?"unit range":v<0?"negative":"above one");
        if(unit)
        {
            ref::Num o=ref::add(n1,ref::neg(x)); k.begin("urOneMinus",v); P c=p.urOneMinus(); k.eq(c.v,ref::trunc(f,o)); k.begin("urOneMinus_exact",v); k.ok(ref::cmp(ref::decode(f,c.v),o)==0,"exactly 1-x"); k.begin("urOneMinus_twice",v); k.eq(c.urOneMinus().v,v);
            k.begin("urDeltaPs",v); k.eq(p.urDeltaPs().v,ref::trunc(f,ref::mul(x,o)));
        }
    });
}
WORKLOAD_MAIN
