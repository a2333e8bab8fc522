// result log: one 64 bit record per operation, written to a file; the logs of different builds are compared
// usage: c22 FILE        write the log        c22 FILE INDEX   describe record INDEX on stdout
#include "posit.h"
#ifndef FPGAHLS
#include "positf.h"
#include "anyfloat.hpp"
#include "float16native32.hpp"
#include "fixedtraits.hpp"
#endif
#include "pw.hpp"
#include <cstring>
#include <vector>
#include <limits>
static FILE*out; static long long want=-1; static unsigned long long idx=0; static std::vector<uint64_t> buf;
static void flush() { if(want<0&&!buf.empty()) if(fwrite(buf.data(),8,buf.size(),out)!=buf.size()) _exit(4); buf.clear(); }
static void put(const char*cfg,const char*op,int64_t a,int64_t b,uint64_t v)
{
    if(want>=0) { if((long long)idx==want) { printf("V\t%s|%s\t%s|%s|%lld|%lld\tresult %llx\n",cfg,op,cfg,op,(long long)a,(long long)b,(unsigned long long)v); fflush(stdout); _exit(0); } }
    else { mon::cur=mon::Cur{cfg,op,a,b,0}; mon::seen(mon::hash3(mon::hstr(cfg)^mon::mix(a),b,mon::hstr(op)),a!=0); buf.push_back(v); if(buf.size()==65536) flush(); }
    idx++;
}
static uint64_t F(float f) { if(f!=f) return 0x7fc00000; if(f==0) return 0; uint32_t b; memcpy(&b,&f,4); return b; }
static uint64_t D(double f) { if(f!=f) return 0x7ff8000000000000ull; if(f==0) return 0; uint64_t b; memcpy(&b,&f,8); return b; }
template <class U> uint64_t UU(const U&u) { return u.isNaN()?1:u.isInfinity()?2+u.negativeSign:u.isZero()?4:mon::hash3((uint64_t)(int64_t)u.exponent,(uint64_t)u.fraction,u.negativeSign?7:8); }
template <class P> void workload()
{
    const char*c=Traits<P>::name().c_str(); ref::PF f=Traits<P>::pf(); Gen g(f,salt<P>("log"));
    long nu=mon::scale(1500,20000), nb=mon::scale(2500,40000);
    auto un=[&](int64_t a){
        P p=mkp<P>(a);
#define R1(n,e) put(c,n,a,0,(uint64_t)(int64_t)(e));
        R1("neg",(-p).v) R1("abs",p.abs().v) R1("inv",p.inv().v) R1("half",p.half().v) R1("twice",p.twice().v) R1("next",p.next().v) R1("prev",p.prev().v) R1("pred",p.isNaN()|p.isinfinity()<<1|p.iszero()<<2|p.isone()<<3|p.isnegative()<<4|p.isUnitRange()<<5)
        R1("unpack",UU(p.unpack())) R1("repack",P(p.unpack()).v) R1("to_int",(int)p) R1("from_int",P((int)(a*2654435761u)).v)
        { auto u=p.unpack_low(); R1("unpack_low",u.type==P::UnpackedT::Regular?mon::hash3(u.regime,u.exp,u.fraction):u.type) }
        if(f.es==0&&!p.isNaN()&&!p.isinfinity()) { R1("sigmoid",p.pseudosigmoid().v) R1("softplus",p.pseudosoftplus().v) R1("oneminus",p.urOneMinus().v) }
    };
    auto bi=[&](int64_t a,int64_t b){
        P p=mkp<P>(a),q=mkp<P>(b);
#define R2(n,e) put(c,n,a,b,(uint64_t)(int64_t)(e));
        R2("add",(p+q).v) R2("sub",(p-q).v) { P r=p*q; R2("mul",r.v) } R2("div",(p/q).v) R2("fma",fma(p,q,mkp<P>(g.wrap((uint64_t)a*31+b))).v) R2("cmp",(p<q)|(p<=q)<<1|(p==q)<<2|(p!=q)<<3|(p>q)<<4|(p>=q)<<5)
        R2("umul",UU(p.unpack()*q.unpack())) R2("udiv",UU(p.unpack()/q.unpack())) R2("uadd",UU(p.unpack()+q.unpack()))
    };
    auto all=[&](std::vector<int64_t>&v){ if(f.N<=8) for(int64_t a=g.top;a<=-(g.top+1);a++) v.push_back(a); else { v=g.sp; for(long i=0;i<nu;i++) v.push_back(g.pick()); } };
    std::vector<int64_t> v; all(v); for(int64_t a:v) un(a);
    for(long i=0;i<nb;i++) { int64_t a=g.pick(); bi(a,g.related(a)); }
    for(size_t i=0;i<g.sp.size();i+=3) for(size_t j=i%5;j<g.sp.size();j+=7) bi(g.sp[i],g.sp[j]);
    { std::vector<P> x,y; for(int n=0;n<40;n++) { x.push_back(mkp<P>(g.pick())); y.push_back(mkp<P>(g.pick())); if(x.back().isNaN()||x.back().isinfinity()) x.back()=mkp<P>(1); put(c,"dot",n,0,(uint64_t)(int64_t)P::dot(x.begin(),y.begin(),n+1).v); } }
    using L=std::numeric_limits<P>; put(c,"limits",0,0,mon::hash3(L::max().v,L::min().v,L::epsilon().v)); put(c,"consts",0,0,mon::hash3(P::one().v*3+P::two().v,P::max().v+P::min().v*5,P::onehalf().v+P::lowest().v*7));
#ifndef CORE
    for(int64_t a:v) { P p=mkp<P>(a); R1("to_float",F((float)p)) R1("to_double",D((double)p)) R1("as_float_bin",(p.as_float_bin()&0x7fffffff)>0x7f800000?0:p.as_float_bin()) double d=(double)p; R1("from_double",P(d*1.37).v) R1("from_float",P((float)(d*0.61)).v) if(f.N<=40) R1("sqrt",std::sqrt(p).v) }
    mon::Rng&r=g.r; for(long i=0;i<nu;i++) { uint64_t b=r.next(); double d; memcpy(&d,&b,8); uint32_t b2=(uint32_t)r.next(); float fl; memcpy(&fl,&b2,4); put(c,"from_double",b,0,(uint64_t)(int64_t)P(d).v); put(c,"from_float",b2,0,(uint64_t)(int64_t)P(fl).v); put(c,"from_bits",b2,0,(uint64_t)(int64_t)P(typename P::single_tag(),b2).v); }
    if(f.N<=32) { using X=PositF<typename P::value_t,Traits<P>::n,Traits<P>::es,double,P::PT::positspec>; auto mk=[](int64_t v){ return X(typename X::DeepInit(),(typename X::value_t)v); };
      for(long i=0;i<nb/2;i++) { int64_t a=g.pick(),b=g.related(a); X p=mk(a),q=mk(b); R2("F.add",(p+q).v) R2("F.sub",(p-q).v) R2("F.mul",(p*q).v) R2("F.div",(p/q).v) R2("F.inv",p.inv().v) R2("F.half",p.half().v) } }
#endif
}
#ifdef OTHERS
template <class Tr,class FT> void flt(const char*c,int bits)
{
    using U=Unpacked<FT,int>; mon::Rng r(mon::hash3(mon::seed(),mon::hstr(c),sizeof(FT)));
    for(long i=0,n=mon::scale(20000,300000);i<n;i++) { uint64_t b=r.next()>>(64-bits); if(r.below(3)==0) b&=r.next(); U u=U::template make_floati<Tr>((typename Tr::holder_t)b); put(c,"decode",b,sizeof(FT),UU(u)); if(u.isNaN()) continue; put(c,"half",b,sizeof(FT),(uint64_t)u.template pack_xfloati<half_trait>()); put(c,"single",b,sizeof(FT),(uint64_t)u.template pack_xfloati<single_trait>()); put(c,"double",b,sizeof(FT),(uint64_t)u.template pack_xfloati<double_trait>()); put(c,"micro",b,sizeof(FT),(uint64_t)u.template pack_xfloati<microfloat_trait>()); put(c,"int",b,sizeof(FT),(uint64_t)(int64_t)(int)u); put(c,"fixed",b,sizeof(FT),(uint64_t)(int64_t)u.template pack_xfixed<fixedtrait<int32_t,32,12>>()); }
}
template <class X> void emu(const char*c,int bits)
{
    mon::Rng r(mon::hash3(mon::seed(),mon::hstr(c),2)); using H=decltype(X().v);
    for(long i=0,n=mon::scale(20000,300000);i<n;i++) { uint64_t a=r.next()>>(64-bits), b=r.next()>>(64-bits); X p(typename X::DeepInit(),(H)a), q(typename X::DeepInit(),(H)b); auto V=[&](const X&x)->uint64_t{ return F((float)x); };
        put(c,"val",a,0,F((float)p)); put(c,"add",a,b,V(p+q)); put(c,"sub",a,b,V(p-q)); put(c,"mul",a,b,V(p*q)); put(c,"div",a,b,V(p/q)); put(c,"cmp",a,b,(p<q)|(p==q)<<1|(p>=q)<<2); put(c,"half",a,0,V(p.half())); put(c,"neg",a,0,V(-p)); }
}
static void others()
{
    flt<half_trait,uint16_t>("half",16); flt<half_trait,uint32_t>("half32",16); flt<single_trait,uint32_t>("single",32); flt<single_trait,uint8_t>("single8",32); flt<double_trait,uint64_t>("double",64); flt<double_trait,uint32_t>("double32",64); flt<microfloat_trait,uint8_t>("micro",8); flt<bfloat16_trait,uint16_t>("bfloat",16);
    emu<anyfloat_emu<5,10,halffloat,uint16_t,float>>("emu half",16); emu<anyfloat_emu<5,2,microfloat,uint8_t,float>>("emu micro",8); emu<anyfloat_emu<8,7,halffloatalt,uint16_t,float,false>>("emu bfloat",16); emu<anyfloat_emu<6,9,halffloat,uint16_t,double>>("emu 6,9",16);
    mon::Rng r(mon::seed()+5); const char*c="float16n32"; for(long i=0,n=mon::scale(60000,1000000);i<n;i++) { uint64_t a=r.next()&0xffff,b=r.next()&0xffff; float16n32 p(false,(uint16_t)a),q(false,(uint16_t)b); put(c,"val",a,0,F((float)p)); put(c,"add",a,b,F((float)(p+q))); put(c,"mul",a,b,F((float)(p*q))); put(c,"div",a,b,F((float)(p/q))); put(c,"cmp",a,b,(p<q)|(p==q)<<1); }
}
#endif
int main(int ac,char**av)
{
    mon::init(ac,av); if(ac>2) want=atoll(av[2]); else { out=fopen(av[1],"wb"); if(!out) return 4; }
#ifdef OTHERS
    others(); mon::klass("other types");
#else
    CONFIGS(RUNCFG_)
#endif
    flush(); if(out) fclose(out); return mon::finish();
}
