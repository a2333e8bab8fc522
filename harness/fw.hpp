// workloads over unpacked numbers and float formats
#pragma once
#include "unpacked.h"
#include "ref.hpp"
#include "mon.hpp"
#include <cmath>
#include <string>
#include <cstring>
struct Rec
{
    std::string cfg; const char*op=""; uint64_t hc;
    explicit Rec(const std::string&c):cfg(c),hc(mon::hstr(cfg.c_str())){}
    void begin(const char*o,int64_t a,int64_t b=0,int64_t c=0) { op=o; mon::cur=mon::Cur{cfg.c_str(),o,a,b,c}; }
    void ck(bool good,const std::string&e,const std::string&g,bool nt=true)
    {
        auto&c=mon::cur; mon::seen(mon::hash3(hc^mon::mix(c.a),c.b,c.c+mon::hstr(op)),nt);
        if(!good) mon::violation(cfg+"|"+op,mon::fmt("%s|%s|%llx|%llx|%llx",cfg.c_str(),op,(long long)c.a,(long long)c.b,(long long)c.c),"expected "+e+" got "+g);
        if(mon::want_sample()) mon::sample(mon::fmt("%s %s a=%llx b=%llx c=%llx -> %s",cfg.c_str(),op,(long long)c.a,(long long)c.b,(long long)c.c,g.c_str()));
    }
    void fast(bool good,bool nt=true) { auto&c=mon::cur; mon::seen(mon::hash3(hc^mon::mix(c.a),c.b,c.c+(uint64_t)op[0]*7+op[1]*131),nt); (void)good; }
};
inline std::string hx(uint64_t v) { return mon::fmt("%llx",(unsigned long long)v); }
template <class U> std::string ustr(const U&u) { return u.isNaN()?"nan":u.isInfinity()?(u.negativeSign?"-inf":"inf"):u.isZero()?"0":mon::fmt("%sexp %lld frac %llx",u.negativeSign?"-":"",(long long)u.exponent,(unsigned long long)u.fraction); }
// keep only the bits a fraction type of fb bits can hold (truncation toward zero)
inline ref::Num cut(ref::Num x,int fb) { if(x.k==ref::FIN) { u128 keep=~((((u128)1)<<(127-fb))-1); if(x.m&~keep) x.st=false; x.m&=keep; x.st=false; } return x; }
template <class U> bool same(const U&u,const ref::Num&x) // x already cut
{
    constexpr int FB=U::FT_bits;
    switch(x.k) { case ref::NAN_: return u.isNaN(); case ref::INF: return u.isInfinity()&&u.negativeSign==x.neg; case ref::ZERO: return u.isZero();
      default: return u.isRegular()&&u.negativeSign==x.neg&&(long)u.exponent==x.e&&(uint64_t)u.fraction==(uint64_t)((x.m<<1)>>(128-FB)); }
}
template <class U> U umake(const ref::Num&x) // x finite, cut
{
    constexpr int FB=U::FT_bits; switch(x.k) { case ref::NAN_: return U::nan(); case ref::INF: return x.neg?U::ninfinity():U::pinfinity(); case ref::ZERO: return U::zero(); default: return U((decltype(U().exponent))x.e,(decltype(U().fraction))((x.m<<1)>>(128-FB)),x.neg); }
}
// the same state: what decides every later operation on the object
template <class U> bool alike(const U&a,const U&b) { return a.type==b.type && (a.isNaN()?true:a==b&&b==a&&a.negativeSign==b.negativeSign) && (!a.isRegular()||(a.exponent==b.exponent&&a.fraction==b.fraction)); }
// objects that already hold another value, onto which a new one is unpacked
template <class U> U used(uint64_t z) { using ET=decltype(U().exponent); using FT=decltype(U().fraction); U u; switch(z%6) { case 0: return U::ninfinity(); case 1: return U::nan(); case 2: return U::zero(); case 3: u=U((ET)-5,(FT)~(FT)0,true); return u; case 4: return U((ET)(z>>8&127),(FT)(z>>16),true); default: return U((ET)3,(FT)1,false); } }
template <class FT,class ET> std::string uname() { return mon::fmt("U<u%d,i%d>",(int)sizeof(FT)*8,(int)sizeof(ET)*8); }

template <class Tr> struct FInfo;
#define FINFO(T,E,F,D,NM) template <> struct FInfo<T> { static ref::FF ff() { return ref::FF{E,F,D}; } static const char*name() { return NM; } };
FINFO(half_trait,5,10,true,"half") FINFO(single_trait,8,23,true,"single") FINFO(double_trait,11,52,true,"double") FINFO(microfloat_trait,5,2,true,"micro") FINFO(half_traitalt,8,7,true,"halfalt") FINFO(bfloat16_trait,8,7,false,"bfloat16")
inline int fbitsof(const ref::FF&f) { return 1+f.ebits+f.fbits; }
// equality of two encodings of format f: NaN payloads and the sign of zero are not significant
inline bool fsame(const ref::FF&f,uint64_t a,uint64_t b)
{
    uint64_t mg=(((uint64_t)1)<<(f.ebits+f.fbits))-1; uint64_t inf=((((uint64_t)1)<<f.ebits)-1)<<f.fbits;
    if((a&mg)>inf||(b&mg)>inf) return (a&mg)>inf&&(b&mg)>inf;
    if((a&mg)==0||(b&mg)==0) return (a&mg)==0&&(b&mg)==0;
    return a==b;
}
// adversarial bit patterns of a float format
struct BGen
{
    ref::FF f; mon::Rng r; int W; BGen(ref::FF f_,uint64_t s):f(f_),r(s),W(1+f_.ebits+f_.fbits){}
    uint64_t mask() { return W==64?~0ull:((((uint64_t)1)<<W)-1); }
    uint64_t pick()
    {
        uint64_t em=(((uint64_t)1)<<f.ebits)-1, fm=(((uint64_t)1)<<f.fbits)-1, bias=(((uint64_t)1)<<(f.ebits-1))-1;
        uint64_t e,fr=r.next()&fm;
        switch(r.below(8)) { case 0: e=0; break; case 1: e=em; break; case 2: e=1; break; case 3: e=em-1; break; case 4: e=bias+r.below(65)-32; break; default: e=r.next(); }
        switch(r.below(8)) { case 0: fr=0; break; case 1: fr=fm; break; case 2: fr=((uint64_t)1)<<r.below(f.fbits); break; case 3: { int z=r.below(f.fbits+1); fr=(fr>>z)<<z; break; } case 4: fr>>=r.below(f.fbits+1); break; default:; }
        return ((e&em)<<f.fbits)|(fr&fm)|((r.next()&1)<<(W-1));
    }
    template <class F> void all(long count,F fn)
    {
        if(W<=16) { for(uint64_t b=0;b<=mask();b++) if(W<=8||!mon::thin()) fn(b); return; }
        uint64_t em=(((uint64_t)1)<<f.ebits)-1, fm=(((uint64_t)1)<<f.fbits)-1;
        for(uint64_t e=0;e<=em;e++) for(uint64_t fr: {(uint64_t)0,(uint64_t)1,fm,fm-1,fm/2,fm/2+1,fm/2+2}) for(uint64_t s=0;s<2;s++) fn((s<<(W-1))|(e<<f.fbits)|fr);
        for(int k=0;k<f.fbits;k++) for(uint64_t e: {(uint64_t)0,em}) for(uint64_t s=0;s<2;s++) { fn((s<<(W-1))|(e<<f.fbits)|(((uint64_t)1)<<k)); fn((s<<(W-1))|(e<<f.fbits)|((((uint64_t)2)<<k)-1)); }
        for(long i=0;i<count;i++) fn(pick());
    }
};
inline ref::Num rnum(mon::Rng&r,int fb,long elo,long ehi) // random finite with at most fb fraction bits
{
    ref::Num x; x.k=ref::FIN; x.neg=r.next()&1; x.e=elo+(long)r.below((uint64_t)(ehi-elo+1));
    uint64_t fr=r.next(); switch(r.below(8)) { case 0: fr=0; break; case 1: fr=~0ull; break; case 2: { int z=r.range(0,63); fr=(fr>>z)<<z; break; } case 3: fr&=r.next()&r.next(); break; case 4: fr=1; fr<<=(64-fb); break; case 5: fr=((uint64_t)1)<<r.range(64-fb,63); break; default:; }
    if(fb<64) fr=(fr>>(64-fb))<<(64-fb);
    x.m=(((u128)1)<<127)|(((u128)fr)<<63); return x;
}
