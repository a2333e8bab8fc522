// decoding: every observable decoding of a pattern agrees with the value the pattern denotes
#include "pw.hpp"
#include <cstring>
static uint64_t db(double d) { uint64_t b; memcpy(&b,&d,8); return b; }
static uint32_t fb(float d) { uint32_t b; memcpy(&b,&d,4); return b; }
template <class P> void workload()
{
    using T=Traits<P>; using U=typename P::UnpackedT; Ck<P> k; auto f=k.f; Gen g(f,salt<P>("dec"));
    constexpr int FB=sizeof(typename T::ft)*8, HB=sizeof(typename T::holder)*8;
    g.unary(mon::scale(12000,300000),[&](int64_t v){
        P p=mkp<P>(v); ref::Num x=ref::decode(f,v); bool nt=x.k==ref::FIN;
        auto chk=[&](const char*o,bool good,const std::string&e,const std::string&gt){ k.begin(o,v); k.ev(nt); if(!good) k.bad(e,gt); };
        { k.begin("to_double",v); double d=(double)p, e=ref::to_double(x); bool good;
          if(x.k==ref::NAN_) good=std::isnan(d); else if(x.k==ref::INF) good=std::isinf(d)&&(f.spec==ref::WithInf||std::signbit(d)==x.neg); else if(e==0) good=d==0; else good=db(d)==db(e);
          chk("to_double",good,mon::fmt("%a",e),mon::fmt("%a",d)); }
        { k.begin("to_float",v); float d=(float)p, e=ref::to_float(x); bool good;
          if(x.k==ref::NAN_) good=std::isnan(d); else if(x.k==ref::INF) good=std::isinf(d)&&(f.spec==ref::WithInf||std::signbit(d)==x.neg); else if(e==0) good=d==0; else good=fb(d)==fb(e);
          chk("to_float",good,mon::fmt("%a",e),mon::fmt("%a",d));
          k.begin("as_float_bin",v); uint32_t b=p.as_float_bin(); float bf; memcpy(&bf,&b,4); if(x.k==ref::NAN_) good=std::isnan(bf); else if(x.k==ref::INF) good=std::isinf(bf)&&(f.spec==ref::WithInf||std::signbit(bf)==x.neg); else if(e==0) good=bf==0; else good=b==fb(e);
          chk("as_float_bin",good,mon::fmt("%08x",fb(e)),mon::fmt("%08x",b)); }
        { k.begin("unpack",v); U u=p.unpack(); bool good;
          if(x.k==ref::NAN_) good=u.isNaN(); else if(x.k==ref::INF) good=u.isInfinity()&&(f.spec==ref::WithInf||u.negativeSign==x.neg); else if(x.k==ref::ZERO) good=u.isZero();
          else { uint64_t fr=(uint64_t)((x.m<<1)>>(128-FB)); good=u.isRegular() && u.negativeSign==x.neg && (long)u.exponent==x.e && (uint64_t)u.fraction==fr; }
          chk("unpack",good,ref::str(x),mon::fmt("type %d neg %d exp %lld frac %llx",(int)u.type,(int)u.negativeSign,(long long)u.exponent,(unsigned long long)u.fraction)); }
        { k.begin("unpack_low",v); auto u=p.unpack_low(); bool good;
          if(x.k==ref::NAN_) good=u.type==U::NaN; else if(x.k==ref::INF) good=u.type==U::Infinity&&(f.spec==ref::WithInf||u.negativeSign==x.neg); else if(x.k==ref::ZERO) good=u.type==U::Zero;
          else { auto q=ref::fields(f,v); uint64_t fr= q.fs ? (uint64_t)(q.frac)<<(HB-q.fs) : 0; good=u.type==U::Regular && u.negativeSign==x.neg && (long)u.regime==q.reg && (long)u.exp==q.exp && (uint64_t)u.fraction==fr; }
          chk("unpack_low",good,ref::str(x),mon::fmt("type %d neg %d reg %lld exp %lld frac %llx",(int)u.type,(int)u.negativeSign,(long long)u.regime,(long long)u.exp,(unsigned long long)u.fraction)); }
        { k.begin("analyze",v); auto i=p.analyze(); bool good;
          if(x.k==ref::NAN_) good=i.nan&&!i.infinity; else if(x.k==ref::INF) good=i.infinity&&!i.nan&&(f.spec!=ref::WithNanInf||i.sign==x.neg); else if(x.k==ref::ZERO) good=!i.nan&&!i.infinity&&!i.sign&&i.rs==0&&i.fs==0;
          else { auto q=ref::fields(f,v); uint64_t fr=(uint64_t)((x.m<<1)>>(128-FB)); good=!i.nan&&!i.infinity&&i.sign==x.neg&&i.k==q.reg&&i.rs==q.rs&&i.es==q.es&&i.exp==q.exp&&(long)i.exponent==x.e&&i.fs==q.fs&&(uint64_t)i.ifraction==fr; }
          chk("analyze",good,ref::str(x),mon::fmt("k %d rs %d es %d fs %d exp %d exponent %d frac %llx",i.k,i.rs,i.es,i.fs,i.exp,i.exponent,(unsigned long long)i.ifraction)); }
        if(nt) { auto q=ref::fields(f,v); mon::klass(mon::fmt("regime%s%d",q.reg<0?"-":"+",q.reg<0?-q.reg:q.reg)); if(q.es<f.es) mon::klass("truncated exponent field"); }
        else mon::klass(x.k==ref::ZERO?"zero":x.k==ref::INF?"inf":"nan");
    });
}
WORKLOAD_MAIN
