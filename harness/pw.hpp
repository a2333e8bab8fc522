// Posit workloads: template code that drives the real Posit<> types; every event is checked online.
#pragma once
#include "posit.h"
#include "ref.hpp"
#include "mon.hpp"
#include <type_traits>
#include <algorithm>
#include <cmath>

#define CATI(a,b) a##b
#define CAT(a,b) CATI(a,b)

template <class P> struct Traits;
template <class T,int N,int ES,class FT,PositSpec S> struct Traits<Posit<T,N,ES,FT,S>>
{
    static constexpr int n=N, es=ES; using holder=T; using ft=FT;
    static constexpr ref::Spec spec = S==PositSpec::WithNan?ref::WithNan:S==PositSpec::WithInf?ref::WithInf:ref::WithNanInf;
    static ref::PF pf() { return ref::PF{N,ES,spec}; }
    static std::string &name() { static std::string s = mon::fmt("P<i%d,%d,%d,u%d,%s>",(int)sizeof(T)*8,N,ES,(int)sizeof(FT)*8,spec==ref::WithNan?"nan":spec==ref::WithInf?"inf":"naninf"); return s; }
};

template <class P> P mkp(int64_t v) { return P(typename P::DeepInit(),(typename P::value_t)v); }

// ---------- generation ------------------------------------------------------------------
struct Gen
{
    ref::PF f; mon::Rng r; std::vector<int64_t> sp; int64_t top;
    Gen(ref::PF f_,uint64_t s): f(f_), r(s), top(ref::TOP(f_))
    {
        auto put=[&](int64_t v){ if(ref::canonical(f,v)) sp.push_back(v); };
        const int64_t mx=-(top+1), one=((int64_t)1)<<(f.N-2);
        for(int d=0; d<4; d++) { for(int64_t b: {(int64_t)0,top,mx,one,-one,one/2,-one/2,one+one/2,-one-one/2}) { put(b+d); put(b-d); } }
        for(int k=0;k<f.N-1;k++)
        {
            int64_t p=((int64_t)1)<<k, hiones = mx & ~(p-1);
            for(int64_t b: {p,p-1,p+1,p|1,hiones,hiones+1,hiones-1,p+p/2}) { put(b); put(-b); }
        }
        std::sort(sp.begin(),sp.end()); sp.erase(std::unique(sp.begin(),sp.end()),sp.end());
    }
    int64_t wrap(uint64_t v) const { uint64_t m = f.N==64?~0ull:((((uint64_t)1)<<f.N)-1); v&=m; return (v>>(f.N-1)) ? (int64_t)(v|~m) : (int64_t)v; }
    int64_t uniform() { return wrap(r.next()); }
    int64_t byregime()   // uniform regime length, random tail (sometimes all 0 / all 1 / sparse)
    {
        const int W=f.N-1; int run=r.range(1,W); bool first=r.next()&1; uint64_t v=0;
        if(first) v = ((((uint64_t)1)<<run)-1) << (W-run); else if(run<W) v=((uint64_t)1)<<(W-run-1);
        int left = W-run-1; if(left>0) { uint64_t t=r.next() & ((((uint64_t)1)<<left)-1); switch(r.below(8)){case 0:t=0;break; case 1:t=(((uint64_t)1)<<left)-1;break; case 2:t&=r.next()&r.next();break; case 3:t|=(r.next()|r.next())&((((uint64_t)1)<<left)-1);break; case 4: { int k=r.range(0,left-1); t=(t>>k)<<k; break; } default:; } v|=t; }
        int64_t s=(int64_t)v; if(r.next()&1) s=-s; return s;
    }
    int64_t pick() { switch(r.below(8)) { case 0: return sp[r.below(sp.size())]; case 1: case 2: return uniform(); default: return byregime(); } }
    int64_t related(int64_t a)  // something that interacts with a
    {
        switch(r.below(6)) { case 0: return wrap((uint64_t)(-a)+r.range(-3,3)); case 1: return wrap((uint64_t)a+r.range(-3,3));
         case 2: { // nearby exponent
             int64_t d=(int64_t)r.below((((uint64_t)1)<<r.range(0,f.N-2))+1); return wrap((uint64_t)((r.next()&1)?a:-a)+((r.next()&1)?d:-d)); }
         default: return pick(); }
    }
    // all values when small, otherwise specials + count samples
    template <class F> void unary(long count,F fn)
    {
        if(f.N<=16) { for(int64_t v=top; v<=-(top+1); v++) if(f.N<=6||!mon::thin()) fn(v); return; }
        for(int64_t v: sp) fn(v);
        for(long i=0;i<count;i++) fn(pick());
    }
    template <class F> void binary(long count,int exhaustN,F fn)
    {
        if(f.N<=exhaustN) { for(int64_t a=top;a<=-(top+1);a++) for(int64_t b=top;b<=-(top+1);b++) if(f.N<=4||!mon::thin()) fn(a,b); return; }
        if(sp.size()<=400) for(int64_t a: sp) for(int64_t b: sp) if(!mon::thin()) fn(a,b);
        for(long i=0;i<count;i++) { int64_t a=pick(); fn(a,related(a)); }
    }
};

// ---------- event helper ----------------------------------------------------------------
template <class P> struct Ck
{
    using T=Traits<P>; ref::PF f=T::pf(); const char*cfg=T::name().c_str(); uint64_t hc=mon::hstr(cfg);
    uint64_t hop=0; const char*op="";
    void begin(const char*o,int64_t a,int64_t b=0,int64_t c=0) { op=o; mon::cur=mon::Cur{cfg,o,a,b,c}; }
    bool trivial(int64_t a) const { return a==0 || a==ref::TOP(f); }
    void ev(bool nt) { auto&c=mon::cur; mon::seen(mon::hash3(hc^(uint64_t)(uintptr_t)0^mon::mix((uint64_t)c.a),(uint64_t)c.b,(uint64_t)c.c+mon::mix((uint64_t)op[0]*131+op[1]*31+strlen(op))),nt); }
    void bad(const std::string&exp,const std::string&got)
    {
        auto&c=mon::cur;
        mon::violation(std::string(cfg)+"|"+op, mon::fmt("%s|%s|%lld|%lld|%lld",cfg,op,c.a,c.b,c.c),
          mon::fmt("a=%s b=%s expected %s got %s",ref::pstr(f,c.a).c_str(), ref::canonical(f,c.b)?ref::pstr(f,c.b).c_str():"-", exp.c_str(),got.c_str()));
    }
    std::string ps(int64_t v) { return ref::canonical(f,v)?ref::pstr(f,v):mon::fmt("%lld(not a valid pattern)",(long long)v); }
    // exact expected pattern
    void eq(int64_t got,int64_t exp,bool nt=true)
    {
        ev(nt); if(got!=exp) bad(ps(exp),ps(got));
        if(mon::want_sample()) mon::sample(mon::fmt("%s %s a=%lld b=%lld -> %lld",cfg,op,mon::cur.a,mon::cur.b,(long long)got));
    }
    void in(int64_t got,ref::Enc e,bool nt=true)
    {
        ev(nt); if(got!=e.lo && got!=e.hi) bad(ps(e.lo)+(e.lo!=e.hi?" or "+ps(e.hi):""),ps(got));
        if(mon::want_sample()) mon::sample(mon::fmt("%s %s a=%lld b=%lld -> %lld",cfg,op,mon::cur.a,mon::cur.b,(long long)got));
    }
    void ok(bool good,const char*what,bool nt=true) { ev(nt); if(!good) bad(what,"something else"); }
};
template <class P> uint64_t salt(const char*p) { return mon::hash3(mon::seed(),mon::hstr(Traits<P>::name().c_str()),mon::hstr(p)); }

#define RUNCFG_(T,N,ES,FT,S) { using P=Posit<T,N,ES,FT,PositSpec::S>; workload<P>(); mon::klass("cfg:"+Traits<P>::name()); }
#define WORKLOAD_MAIN int main(int c,char**v) { mon::init(c,v); CONFIGS(RUNCFG_) return mon::finish(); }
