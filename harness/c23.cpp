// purity: the same operations on shared operands from many threads, in many orders, cold and warm; results compared with each other
#include "posit8.hpp"
#include "posit10.hpp"
#include "posit12.hpp"
#include "positf.h"
#include "anyfloat.hpp"
#include "float16native32.hpp"
#include "fixedtraits.hpp"
#include "pw.hpp"
#include <sstream>
#include <iostream>
#include <cfenv>
#include <thread>
#include <atomic>
#include <vector>
#include <numeric>
extern uint64_t simdeval(int op,const void*a,const void*b); extern bool simdhere(); extern uint64_t heval(int op,uint16_t a,uint16_t b);
extern uint64_t b8eval(int op,const int8_t*a,const int8_t*b); extern int b8ops();
static uint64_t F(float f) { if(f!=f) return 0x7fc00000; if(f==0) return 0; uint32_t b; memcpy(&b,&f,4); return b; }
static uint64_t D(double f) { if(f!=f) return 0x7ff8000000000000ull; if(f==0) return 0; uint64_t b; memcpy(&b,&f,8); return b; }
template <class U> uint64_t UU(const U&u) { return u.isNaN()?1:u.isInfinity()?2+u.negativeSign:u.isZero()?4:mon::hash3((uint64_t)(int64_t)u.exponent,(uint64_t)u.fraction,u.negativeSign?7:8); }
struct Ev { uint64_t (*fn)(int,const void*,const void*); int op; const void*a,*b; const char*cfg; bool exact; };
// operations made of integer arithmetic only: the rounding mode of the processor is not among their operands
template <class O> auto isexact(int op,int) -> decltype(O::exact(op)) { return O::exact(op); }
template <class O> bool isexact(int,long) { return false; }
static std::vector<Ev> evs;
static uint64_t shs(const std::string&s) { return mon::hstr(s.c_str()); }
template <class P> struct POps
{
    static const int n=34;
    static bool exact(int op) { return op!=16&&op!=24&&op!=28; } // not a product of doubles, a printed float, a square root
    static uint64_t run(int op,const void*x,const void*y)
    {
        const P&p=*(const P*)x; const P&q=*(const P*)y; using L=std::numeric_limits<P>; bool fin=!p.isNaN()&&!p.isinfinity();
        switch(op) { case 0: return (p+q).v; case 1: return (p-q).v; case 2: { P r=p*q; return r.v; } case 3: return (p/q).v; case 4: return p.inv().v; case 5: return p.half().v; case 6: return p.twice().v; case 7: return (-p).v; case 8: return p.abs().v; case 9: return (p<q)|(p<=q)<<1|(p==q)<<2|(p!=q)<<3|(p>q)<<4|(p>=q)<<5;
          case 10: return fma(p,q,p).v; case 11: return UU(p.unpack()); case 12: return P(p.unpack()).v; case 13: return F((float)p); case 14: return D((double)p); case 15: return (int)p; case 16: return P((double)p*1.01).v; case 17: return P((float)q).v; case 18: return P((int)q).v; case 19: return p.next().v; case 20: return p.prev().v;
          case 21: { P r=p; r+=q; return r.v; } case 22: { P r=p; r*=q; return r.v; } case 23: { P r=p; r/=q; return r.v; } case 24: { std::ostringstream o; o<<p<<" "<<std::hex<<q<<std::oct<<p; return shs(o.str()); } case 25: return mon::hash3(L::max().v,L::min().v,L::epsilon().v); case 26: { P t[3]={p,q,p}, u[3]={q,q,p}; return P::dot(t,u,3).v; }
          case 27: { P&w=const_cast<P&>(p); return fin?mon::hash3(w.analyze().exponent,w.analyze().rs,w.analyze().fs):0; } case 28: return Traits<P>::n<=40?(uint64_t)std::sqrt(p).v:0; case 29: return Traits<P>::es==0&&fin?p.pseudosigmoid().v*3+p.pseudosoftplus().v:0; case 30: { std::ostringstream o; o<<p.unpack(); return shs(o.str()); } case 31: return std::max(p,q).v*2+std::min(p,q).v; case 32: { auto u=p.unpack_low(); return P(u).v; } default: return P(p.unpack()*q.unpack()).v; }
    }
};
template <class P> struct TOps
{
    static const int n=18;
    static bool exact(int op) { return op<9; }
    static uint64_t run(int op,const void*x,const void*y)
    {
        const P&p=*(const P*)x; const P&q=*(const P*)y;
        switch(op) { case 0: return (p+q).v; case 1: return (p-q).v; case 2: return (p*q).v; case 3: return (p/q).v; case 4: return p.inv().v; case 5: return p.half().v; case 6: return p.twice().v; case 7: return (-p).v; case 8: return p.square().v; case 9: return p.exp2().v; case 10: return F((float)p); case 11: return D((double)p); case 12: return (int)p; case 13: return (p<q)|(p==q)<<1; case 14: return P((float)p).v; case 15: { std::ostringstream o; o<<p; return shs(o.str()); } case 16: { P r=p; r+=q; r*=p; return r.v; } default: return P((int)q).v; }
    }
};
template <class X> struct FOps { static const int n=14; static uint64_t run(int op,const void*x,const void*y) { const X&p=*(const X*)x; const X&q=*(const X*)y; switch(op) { case 0: return (p+q).v; case 1: return (p-q).v; case 2: return (p*q).v; case 3: return (p/q).v; case 4: return p.inv().v; case 5: return p.half().v; case 6: return p.twice().v; case 7: return F((float)p); case 8: return D((double)p); case 9: return X((double)q).v; case 10: { std::ostringstream o; o<<p; return shs(o.str()); } case 11: return (p<q)|(p==q)<<1; case 12: return (int)p; default: return p.next().v; } } };
template <class X> struct EOps { static const int n=9; static uint64_t run(int op,const void*x,const void*y) { const X&p=*(const X*)x; const X&q=*(const X*)y; switch(op) { case 0: return F((float)(p+q)); case 1: return F((float)(p-q)); case 2: return F((float)(p*q)); case 3: return F((float)(p/q)); case 4: return F((float)p); case 5: return D((double)p); case 6: return (p<q)|(p==q)<<1; case 7: return F((float)(-p)); default: return F((float)fma(p,q,p)); } } };
struct HOps { static const int n=8; static uint64_t run(int op,const void*x,const void*y) { const float16n32&p=*(const float16n32*)x; const float16n32&q=*(const float16n32*)y; switch(op) { case 0: return F((float)(p+q)); case 1: return F((float)(p-q)); case 2: return F((float)(p*q)); case 3: return F((float)(p/q)); case 4: return F((float)p); case 5: return (p<q)|(p==q)<<1; case 6: { std::ostringstream o; if((float)p==(float)p) o<<p; return shs(o.str()); } default: return F((float)p.abs()); } } };
static uint64_t b8run(int op,const void*a,const void*b) { return b8eval(op,(const int8_t*)a,(const int8_t*)b); }
static std::vector<std::pair<const char*,size_t>> blobs; // operand storage, must never change
template <class V> const V*keep(std::vector<V>&v) { V*m=(V*)malloc(v.size()*sizeof(V)); for(size_t i=0;i<v.size();i++) new(m+i) V(v[i]); blobs.push_back({(const char*)m,v.size()*sizeof(V)}); return m; }
static long NP; 
template <class O,class V> void reg(const char*cfg,std::vector<V> v,mon::Rng&r) { const V*m=keep(v); // operands that a remembered result could be taken for: swapped, one in common, and neighbours in the vector (related by sign or by their low bits)
    for(long i=0;i<NP;i+=4) { size_t n=v.size(),a=r.below(n),b=r.below(n),k=r.below(n); const size_t q[4][2]={{a,b},{b,a},{i%8?a:a^1,i%8?k:b^1},{i%8?k:a^1,b}}; for(auto&x:q) for(int o=0;o<O::n;o++) evs.push_back(Ev{O::run,o,m+x[0]%n,m+x[1]%n,cfg,isexact<O>(o,0)}); } mon::klass(cfg); }
template <class P> void workload() { ref::PF f=Traits<P>::pf(); Gen g(f,salt<P>("pure")); std::vector<P> v; for(int i=0;i<24;i++) { int64_t a=g.pick(), s=a; switch(i%4) { case 0: s=g.wrap((uint64_t)-a); break; case 1: if(f.N>8) s=g.wrap((uint64_t)a^g.r.next()<<(f.N>16?16:8)); break; default: s=g.related(a); } v.push_back(mkp<P>(a)); v.push_back(mkp<P>(s)); } for(int64_t s:{(int64_t)0,ref::TOP(f),ref::MAXPOS(f)}) v.push_back(mkp<P>(s)); reg<POps<P>>(Traits<P>::name().c_str(),v,g.r); }
template <class P> void tabs(const char*n,int bits) { mon::Rng r(mon::hash3(mon::seed(),mon::hstr(n),1)); std::vector<P> v; for(int i=0;i<60;i++) v.push_back(P(typename P::DeepInit(),(typename P::value_t)((int64_t)(r.next()<<(64-bits))>>(64-bits)))); NP*=3; reg<TOps<P>>(n,v,r); NP/=3; }
template <class X> void fb(const char*n,int bits) { mon::Rng r(mon::hash3(mon::seed(),mon::hstr(n),1)); std::vector<X> v; for(int i=0;i<40;i++) v.push_back(X(typename X::DeepInit(),(typename X::value_t)((int64_t)(r.next()<<(64-bits))>>(64-bits)))); reg<FOps<X>>(n,v,r); }
template <class X> void em(const char*n) { mon::Rng r(mon::hash3(mon::seed(),mon::hstr(n),1)); std::vector<X> v; for(int i=0;i<40;i++) v.push_back(X(typename X::DeepInit(),(decltype(X().v))r.next())); reg<EOps<X>>(n,v,r); }
struct B8 { static const int n=12; static uint64_t run(int o,const void*a,const void*b) { return b8run(o,a,b); } };
struct V32 { unsigned char c[32]; }; struct SimdOps { static const int n=16; static uint64_t run(int o,const void*a,const void*b) { return simdeval(o,a,b); } };
struct SoftOps { static const int n=12; static uint64_t run(int o,const void*a,const void*b) { return heval(o,*(const uint16_t*)a,*(const uint16_t*)b); } };
// use before main: the first initialiser of the program evaluates events, before any object of the library's or the workload's is initialised; main compares
struct Early
{
    static const size_t MAXR=400000; uint64_t*r; size_t n; const char*cfg; int kind; // kind 0: recorded, 1: compared
    template <class O,class V> void ev(const char*nm,const V*v,int k) { for(int i=0;i<k;i++) for(int j=0;j<2;j++) for(int o=0;o<O::n;o++) { if(n>=MAXR) return; uint64_t x=O::run(o,v+i,v+(i*7+j*3+1)%k); if(!kind) r[n]=x; else { mon::seen(mon::hash3(n,mon::hstr(nm),5),true); if(r[n]!=x) mon::violation(std::string("pure|before main|")+nm,mon::fmt("pure|before_main|%s|op%d|event%zu",nm,o,n),mon::fmt("result %llx before main was entered, %llx later",(unsigned long long)r[n],(unsigned long long)x)); } n++; } }
    static uint64_t pat(int i) { uint64_t x=0x9e3779b97f4a7c15ull*(uint64_t)(i*2+1); return x^x>>29; }
    template <class P> void posit(const char*nm,int N) { const int K=12; P v[K]; for(int i=0;i<K;i++) v[i]=P(typename P::DeepInit(),(typename P::value_t)((int64_t)(pat(i)<<(64-N))>>(64-N))); ev<POps<P>>(nm,v,K); }
    template <class P,class O> void other(const char*nm,int N) { const int K=40; P v[K]; for(int i=0;i<K;i++) v[i]=P(typename P::DeepInit(),(typename P::value_t)((int64_t)(pat(i)<<(64-N))>>(64-N))); ev<O>(nm,v,K); }
    void all()
    {
        n=0;
#define EARLY_(T,N,ES,FT,S) posit<Posit<T,N,ES,FT,PositSpec::S>>(#T "," #N "," #ES "," #FT "," #S,N);
        CONFIGS(EARLY_)
        other<posit8,TOps<posit8>>("posit8",8); other<posit10,TOps<posit10>>("posit10",10); other<posit12,TOps<posit12>>("posit12",12);
        using F16=PositF<int16_t,16,1,float,PositSpec::WithNan>; other<F16,FOps<F16>>("PositF<16,1,float>",16); using F32=PositF<int32_t,32,2,double,PositSpec::WithNanInf>; other<F32,FOps<F32>>("PositF<32,2,double>",32);
        { int8_t w[60]; uint16_t h[60]; V32 x[20]; for(int i=0;i<60;i++) { w[i]=(int8_t)pat(i); h[i]=(uint16_t)pat(i); } for(int i=0;i<20;i++) for(int j=0;j<32;j++) x[i].c[j]=(unsigned char)pat(i*32+j);
          ev<B8>("binary8tab",w,60); ev<SoftOps>("float16n32 in software",h,60); if(simdhere()) ev<SimdOps>("simd_posit8_32",x,20); float16n32 y[30]; for(int i=0;i<30;i++) y[i]=float16n32(false,h[i]); ev<HOps>("float16n32",y,30); }
    }
    // a run that looks at a cold start must not warm up what it looks at
    static bool warm() { char b[4096]; FILE*f=fopen("/proc/self/cmdline","r"); if(!f) return false; size_t k=fread(b,1,sizeof b-1,f); fclose(f); b[k]=0; char*q=b; for(int i=0;i<3&&q<b+k;i++) q+=strlen(q)+1; return q<b+k&&*q=='w'; }
    Early():n(0),kind(0) { r=(uint64_t*)malloc(MAXR*8); if(warm()) all(); }
    void compare() { size_t k=n; if(!k) return; kind=1; all(); mon::klass("use before main"); mon::klass(mon::fmt("%zu events before main",k)); }
};
static Early early __attribute__((init_priority(101)));
int main(int c,char**av)
{
    mon::init(c,av); const int T=c>1?atoi(av[1]):8, rounds=c>2?atoi(av[2]):2; const bool cold=c>3&&av[3][0]=='c'; NP=c>4?atol(av[4]):20;
    CONFIGS(RUNCFG_)
    tabs<posit8>("posit8",8); tabs<posit10>("posit10",10); tabs<posit12>("posit12",12);
    fb<PositF<int16_t,16,1,float,PositSpec::WithNan>>("PositF<16,1,float>",16); fb<PositF<int32_t,32,2,double,PositSpec::WithNanInf>>("PositF<32,2,double>",32);
    em<anyfloat_emu<5,10,halffloat,uint16_t,float>>("emu<5,10>"); em<anyfloat_emu<5,2,microfloat,uint8_t,float>>("emu<5,2>");
    { mon::Rng r(mon::seed()); std::vector<float16n32> v; for(int i=0;i<60;i++) v.push_back(float16n32(false,(uint16_t)r.next())); reg<HOps>("float16n32",v,r); std::vector<int8_t> w; for(int i=0;i<60;i++) w.push_back((int8_t)r.next()); NP*=3; reg<B8>("binary8tab",w,r); std::vector<uint16_t> h; for(int i=0;i<60;i++) h.push_back((uint16_t)r.next()); reg<SoftOps>("float16n32 in software",h,r); NP/=3;
      if(simdhere()) { std::vector<V32> x(60); for(auto&y:x) for(auto&z:y.c) z=(unsigned char)r.next(); NP*=3; reg<SimdOps>("simd_posit8_32",x,r); NP/=3; } }
    std::stringstream sink; std::ostream*gs[3]={&std::cout,&std::cerr,&std::clog}; std::streambuf*old[3]; std::ios_base::fmtflags fl[3]; for(int i=0;i<3;i++) { old[i]=gs[i]->rdbuf(sink.rdbuf()); fl[i]=gs[i]->flags(); } const int rm=fegetround();
    const size_t N=evs.size(); std::vector<uint64_t> h0; auto bh=[&]{ std::vector<uint64_t> h; for(auto&b:blobs) { uint64_t x=1; for(size_t i=0;i<b.second;i++) x=mon::mix(x+(unsigned char)b.first[i]); h.push_back(x); } return h; }; h0=bh();
    auto seq=[&](std::vector<uint64_t>&o,const std::vector<uint32_t>&ord){ for(uint32_t i:ord) o[i]=evs[i].fn(evs[i].op,evs[i].a,evs[i].b); };
    auto ident=[&]{ std::vector<uint32_t> o(N); std::iota(o.begin(),o.end(),0); return o; };
    // orders: shuffled, reversed, blocks (short random runs of one configuration), same op repeated
    auto order=[&](uint64_t s,int kind){ auto o=ident(); mon::Rng r(s); if(kind==0) for(size_t i=N-1;i>0;i--) std::swap(o[i],o[r.below(i+1)]); else if(kind==1) std::reverse(o.begin(),o.end()); else if(kind==2) { for(size_t b=0;b+64<N;b+=64) for(size_t i=63;i>0;i--) std::swap(o[b+i],o[b+r.below(i+1)]); } else std::stable_sort(o.begin(),o.end(),[&](uint32_t x,uint32_t y){ return evs[x].op<evs[y].op; }); return o; };
    std::vector<uint64_t> base(N); bool have=false; unsigned long long cmp=0;
    auto judge=[&](const std::vector<uint64_t>&o,const char*what){ for(size_t i=0;i<N;i++) { cmp++; mon::seen(mon::hash3(i,mon::hstr(what),mon::seed()),true); if(o[i]!=base[i]) mon::violation(std::string("pure|")+evs[i].cfg,mon::fmt("pure|%s|op%d|event%zu",evs[i].cfg,evs[i].op,i),mon::fmt("%s: result %llx, %llx in the first sequential run",what,(unsigned long long)o[i],(unsigned long long)base[i])); } };
    if(!cold) { seq(base,ident()); have=true; std::vector<uint64_t> o(N); for(int k=0;k<4;k++) { seq(o,order(mon::seed()*77+k,k)); judge(o,k==0?"shuffled order":k==1?"reversed order":k==2?"locally shuffled order":"operation by operation"); mon::klass(mon::fmt("order kind %d",k)); }
        // the other rounding modes; the monitor computes with integers meanwhile
        const int modes[3]={FE_UPWARD,FE_DOWNWARD,FE_TOWARDZERO}; const char*mn[3]={"rounding upward","rounding downward","rounding toward zero"};
        for(int k=0;k<3;k++) { o=base; size_t ne=0; fesetround(modes[k]); for(size_t i=0;i<N;i++) if(evs[i].exact) { o[i]=evs[i].fn(evs[i].op,evs[i].a,evs[i].b); ne++; } fesetround(rm); judge(o,mn[k]); mon::klass(mn[k]); } }
    for(int rd=0;rd<rounds;rd++)
    {
        std::vector<std::vector<uint64_t>> res(T,std::vector<uint64_t>(N)); std::vector<std::vector<uint32_t>> ord; for(int t=0;t<T;t++) ord.push_back(order(mon::seed()*1000+rd*50+t,rd==0?(t%2?0:2):t%4)); std::atomic<int> ready{0}; std::vector<std::thread> th;
        for(int t=0;t<T;t++) th.emplace_back([&,t]{ ready++; while(ready.load()<T) ; seq(res[t],ord[t]); });
        for(auto&x:th) x.join();
        if(!have) { seq(base,ident()); have=true; } for(auto&o:res) judge(o,cold&&rd==0?"threads before any sequential use":"threads"); mon::klass(mon::fmt("round %d",rd)); mon::klass(mon::fmt("%d threads",T));
    }
    early.compare();
    if(bh()!=h0) mon::violation("pure|operands","pure|operands","an operation changed one of its operands");
    bool same=fegetround()==rm; for(int i=0;i<3;i++) { gs[i]->rdbuf(old[i]); same=same&&gs[i]->flags()==fl[i]; } if(!same||sink.str().size()) mon::violation("pure|global state","pure|global_state","an operation wrote to a standard stream, or changed its format or the rounding mode: "+sink.str().substr(0,80)); mon::klass("standard streams and rounding mode watched");
    mon::sample(mon::fmt("%zu events, %llu results compared",N,cmp)); return mon::finish();
}
