// constant expressions against the same operations at run time
#include "pw.hpp"
constexpr uint64_t ch(uint64_t x) { x^=x>>33; x*=0xff51afd7ed558ccdULL; x^=x>>33; x*=0xc4ceb9fe1a85ec53ULL; x^=x>>33; return x; }
constexpr int64_t wr(uint64_t v,int N) { return (int64_t)(v<<(64-N))>>(64-N); }
// operand k of a N bit posit: random pattern, random regime, special
constexpr int64_t opnd(int N,uint64_t s,int k) { uint64_t h=ch(s*1000003u+k*7919u+N); switch(h%4) { case 0: return wr(ch(h),N); case 1: return wr(ch(h)>>(64-N+1+(ch(h+1)%(N-1))),N); case 2: return wr(~(ch(h)>>(64-N+1+(ch(h+1)%(N-1)))),N); default: { const int64_t one=((int64_t)1)<<(N-2); switch((h>>8)%6) { case 0: return 0; case 1: return one; case 2: return wr((uint64_t)1<<(N-1),N); case 3: return wr(((uint64_t)1<<(N-1))-1,N); case 4: return -one; default: return 1; } } } }
struct Res { int64_t v[14]; };
template <class P> constexpr Res eval(int64_t a,int64_t b)
{
    using T=typename P::value_t; P p(typename P::DeepInit(),(T)a), q(typename P::DeepInit(),(T)b); Res r{}; P m=p*q;
    r.v[0]=(p+q).v; r.v[1]=(p-q).v; r.v[2]=m.v; r.v[3]=(p/q).v; r.v[4]=p.inv().v; r.v[5]=p.half().v; r.v[6]=p.twice().v; r.v[7]=(-p).v; r.v[8]=p.abs().v; r.v[9]=P((int)(int32_t)((uint32_t)((uint64_t)a*40503u+(uint64_t)b)>>1)).v; r.v[10]=(p<q)|(p<=q)<<1|(p==q)<<2; r.v[11]=p.next().v; r.v[12]=(int)p; r.v[13]=fma(p,q,p).v; return r;
}
static const char*NM[]={"add","sub","mul","div","inv","half","twice","neg","abs","from_int","compare","next","to_int","fma"};
#ifndef KN
#define KN 24
#endif
template <class P,int K> struct KOne { static constexpr int64_t a=opnd(Traits<P>::n,KSEED,2*K), b=opnd(Traits<P>::n,KSEED,2*K+1); static void go() {
    constexpr Res c=eval<P>(a,b); volatile int64_t va=a, vb=b; Res r=eval<P>(va,vb); Ck<P> k;
    for(int i=0;i<14;i++) { k.begin(NM[i],a,b,i); k.ev(true); if(c.v[i]!=r.v[i]) k.bad(mon::fmt("run time result %lld",(long long)r.v[i]),mon::fmt("constant expression %lld",(long long)c.v[i])); }
    KOne<P,K-1>::go(); } };
template <class P> struct KOne<P,-1> { static void go(){} };
template <class P> void workload() { KOne<P,KN-1>::go(); }
WORKLOAD_MAIN
