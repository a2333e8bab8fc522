// stream output: text compared with the independently decoded value written by the standard library on a twin stream, stream state compared before and after
#include "posit8.hpp"
#include "posit10.hpp"
#include "posit12.hpp"
#include "positf.h"
#include "float16native32.hpp"
#include "srcgen.hpp"
#include "prt.hpp"
static std::string fs(const ref::Num&x) { return ref::str(x); }
static float fval(const ref::PF&f,const ref::Num&x) { (void)f; return x.k==ref::NAN_?NAN:x.k==ref::INF?(x.neg?-INFINITY:INFINITY):ref::to_float(x); }
template <class P> void posit_one(Out&o,ref::PF f,int64_t v,mon::Rng&r,bool plain)
{
    using T=typename P::value_t; constexpr int FB=P::UnpackedT::FT_bits;
    ref::Num x=ref::decode(f,v); if(f.spec==ref::WithInf&&x.k==ref::INF) x.neg=(bool)std::signbit((float)mkp<P>(v)); // the sign of the single infinity is not significant
    P p=mkp<P>(v); Fmt m=rfmt(r,plain); float fl=fval(f,x);
    // NaN: the sign printed by the library follows the NaN's sign bit, which is not significant
    bool nan=x.k==ref::NAN_; if(nan&&std::signbit((float)p)) fl=-fl;
    o.run(v,std::ios::dec,m,[&](std::ostream&s){ return &(s<<p); },[&](std::ostream&s){ s<<(nan&&(bool)std::signbit(fl)!=(bool)std::signbit((float)p)?-fl:fl); },true);
    o.run(v,std::ios_base::fmtflags(),m,[&](std::ostream&s){ return &(s<<p); },[&](std::ostream&s){ s<<fl; },!nan); // no base selected: decimal
    o.run(v,std::ios::hex,m,[&](std::ostream&s){ return &(s<<p); },[&](std::ostream&s){ s.setf(std::ios::dec,std::ios::basefield); if(sizeof(T)==1) s<<(int)v; else s<<(T)v; },true);
    bool pl=!m.add&&!m.loc&&m.width==0; o.run(v,std::ios::oct,m,[&](std::ostream&s){ return &(s<<p); },[&](std::ostream&s){ s<<upform(x,FB); },pl);
    // several values in a row and something else after them
    { std::ostringstream a,b; a<<std::hex<<"<"<<std::dec<<p<<";"<<std::oct<<p<<"|"<<64<<std::hex<<","<<255<<","<<std::dec<<p<<">"; b<<"<"<<fl<<";"<<upform(x,FB)<<"|"<<"100"<<",ff,"<<fl<<">"; mon::cur=mon::Cur{o.cfg.c_str(),"sequence",v,0,0}; mon::seen(mon::hash3(o.hc,v,99),true); if(a.str()!=b.str()) mon::violation(o.cfg+"|sequence",mon::fmt("%s|sequence|%lld",o.cfg.c_str(),(long long)v),"expected '"+b.str()+"' got '"+a.str()+"'"); }
}
template <class P> void workload()
{
    ref::PF f=Traits<P>::pf(); Out o(Traits<P>::name()); Gen g(f,salt<P>("print")); mon::Rng r(salt<P>("fmt")); bool plain=true;
    long n=mon::scale(700,20000); if(f.N<=8) { for(int64_t v=g.top;v<=-(g.top+1);v++) posit_one<P>(o,f,v,r,true); }
    for(int64_t v:g.sp) posit_one<P>(o,f,v,r,true);
    for(long i=0;i<n;i++) posit_one<P>(o,f,g.pick(),r,plain=!plain);
    // a stream that already failed stays as it is and gets no text
    { std::ostringstream s; s<<"x"; s.setstate(std::ios::failbit); State a=state(s); s<<mkp<P>(g.pick()); s<<mkp<P>(0).unpack(); mon::cur=mon::Cur{o.cfg.c_str(),"failed stream",0,0,0}; mon::seen(mon::hash3(o.hc,5,5),true); if(!same(a,state(s))||s.str()!="x") mon::violation(o.cfg+"|failed",o.cfg+"|failed","text or state changed on a failed stream"); }
    // unpacked numbers and float backed posits
    using U=typename P::UnpackedT; constexpr int FB=U::FT_bits; Out ou(std::string("unpacked of ")+Traits<P>::name());
    for(long i=0;i<n/2;i++) { int64_t v=i<(long)g.sp.size()?g.sp[i]:g.pick(); ref::Num x=ref::decode(f,v); U u=mkp<P>(v).unpack(); if(x.k==ref::INF) x.neg=u.negativeSign; Fmt m=rfmt(r,i&1); bool pl=!m.add&&!m.loc&&m.width==0; for(auto b:{std::ios::dec,std::ios::hex,std::ios::oct}) ou.run(v,b,m,[&](std::ostream&s){ return &(s<<u); },[&](std::ostream&s){ s<<upform(x,FB); },pl); }
}
template <class X> void positf(const char*nm,ref::PF f)
{
    Out o(nm); Gen g(f,mon::hash3(mon::seed(),o.hc,1)); mon::Rng r(mon::hash3(mon::seed(),o.hc,2)); constexpr int FB=X::UnpackedT::FT_bits;
    for(long i=0,n=mon::scale(2000,60000);i<n;i++) { int64_t v=i<(long)g.sp.size()?g.sp[i]:g.pick(); ref::Num x=ref::decode(f,v); X p(typename X::DeepInit(),(typename X::value_t)v); Fmt m=rfmt(r,i&1); bool pl=!m.add&&!m.loc&&m.width==0; if(x.k==ref::INF) x.neg=p.unpack().negativeSign;
        for(auto b:{std::ios::dec,std::ios::hex,std::ios::oct}) o.run(v,b,m,[&](std::ostream&s){ return &(s<<p); },[&](std::ostream&s){ s<<upform(x,FB); },pl); }
}
static void halfs()
{
    Out o("float16n32"); mon::Rng r(mon::hash3(mon::seed(),o.hc,1));
    for(uint32_t v=0;v<65536;v+=mon::thorough()?1:1+r.below(6)) { float16n32 p(false,(uint16_t)v); ref::Num x=ref::decode_float(ref::FF{5,10,true},v); if(x.k==ref::NAN_) continue; float e=x.k==ref::INF?(x.neg?-INFINITY:INFINITY):ref::to_float(x); if(x.k==ref::ZERO) e=(float)p; Fmt m=rfmt(r,r.below(2)); for(auto b:{std::ios::dec,std::ios::hex}) o.run(v,b,m,[&](std::ostream&s){ return &(s<<p); },[&](std::ostream&s){ s<<"f16("<<e<<")"; },true); }
}
int main(int c,char**v)
{
    mon::init(c,v); CONFIGS(RUNCFG_)
#ifdef OTHERS
    positf<PositF<int16_t,16,1,float,PositSpec::WithNan>>("PositF<16,1,float>",ref::PF{16,1,ref::WithNan}); positf<PositF<int32_t,32,2,double,PositSpec::WithNanInf>>("PositF<32,2,double>",ref::PF{32,2,ref::WithNanInf}); positf<PositF<int8_t,8,0,float,PositSpec::WithInf>>("PositF<8,0,float>",ref::PF{8,0,ref::WithInf});
    tab<posit8>("posit8",8); tab<posit10>("posit10",10); tab<posit12>("posit12",12); halfs();
#endif
    return mon::finish();
}
