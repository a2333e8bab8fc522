// bit helpers
#include <cmath>
#include "bithippop.hpp"
#include "typehelpers.hpp"
#include "floatconst2bits.hpp"
#include "unpacked.h"
#include "fw.hpp"
typedef unsigned __int128 U128;
template <class T> T rnd(mon::Rng&r) { uint64_t x=r.next(); switch(r.below(7)) { case 0: x>>=r.below(64); break; case 1: x=((uint64_t)1)<<r.below(sizeof(T)*8); break; case 2: x=~0ull; break; case 3: x=(((uint64_t)1)<<r.below(sizeof(T)*8))-1; break; case 4: x&=r.next()&r.next(); break; case 5: x=~(((uint64_t)1)<<r.below(sizeof(T)*8)); break; default:; } return (T)x; }
static uint64_t msk(int n) { return n>=64?~0ull:((((uint64_t)1)<<n)-1); }
template <class T> const char*tn() { return sizeof(T)==1?"u8":sizeof(T)==2?"u16":sizeof(T)==4?"u32":"u64"; }
template <class T> struct All { template <class F> static void each(mon::Rng&r,long n,F fn) { if(sizeof(T)==1||(sizeof(T)==2&&n>2000)) { for(uint32_t i=0;i<(1u<<(sizeof(T)*8));i++) if(!mon::thin()) fn((T)i); } else for(long i=0;i<n;i++) fn(rnd<T>(r)); } };
template <class T> struct Mac { static T get(T x,int o,int s) { return (bitset_get)(x,o,s); } }; template <> struct Mac<uint16_t> { static uint16_t get(uint16_t x,int o,int s) { return bitset_get(x,o,s); } }; template <> struct Mac<uint32_t> { static uint32_t get(uint32_t x,int o,int s) { return bitset_get(x,o,s); } }; // the macro exists for 16 and 32 bits only when the processor has BMI
#if defined(__is_x86_any__) && !defined(FPGAHLS) && defined(__BMI__)
// the forms using the processor's field extraction
template <class T,int O,int S> struct Hw { template <class C> static void go(C c,T x,uint64_t e) { int o=O,s=S; c("bitset_gethwT",(T)(bitset_gethwT<O,S>(x)),e); c("bitset_gethw",(T)(bitset_gethw(x,o,s)),e); } };
template <int O,int S> struct Hw<uint64_t,O,S> { template <class C> static void go(C c,uint64_t x,uint64_t e) { c("bitset_gethwT",(bitset_gethwT<O,S>(x)),e); } };
template <int O,int S> struct Hw<uint8_t,O,S> { template <class C> static void go(C c,uint8_t x,uint64_t e) { c("bitset_gethwT",(uint8_t)(bitset_gethwT<O,S>(x)),e); } };
static const bool hw=true;
#else
template <class T,int O,int S> struct Hw { template <class C> static void go(C,T,uint64_t) {} }; static const bool hw=false;
#endif
template <class T,int O,int S> void field(Rec&k,mon::Rng&r)
{
    long n=sizeof(T)==1?300:40; for(long i=0;i<mon::scale(n,n*4);i++)
    {
        T x=sizeof(T)==1&&i<256?(T)i:rnd<T>(r), y=rnd<T>(r); uint64_t e=((uint64_t)x>>O)&msk(S);
        auto c=[&](const char*o,uint64_t g,uint64_t ex){ k.begin(o,x,O*100+S,y); k.ck(g==ex,hx(ex),hx(g)); };
        c("bitset_get<>",(bitset_get<T,O,S>(x)),e); c("bitset_getT",(T)(bitset_getT(x,O,S)),e); int o=O,s=S; c("bitset_get()",(bitset_get)(x,o,s),e); c("bitset_get macro",Mac<T>::get(x,o,s),e);
        Hw<T,O,S>::go(c,x,e);
        uint64_t pe=((uint64_t)x&~(msk(S)<<O))|(((uint64_t)y&msk(S))<<O); c("bitset_part<>",(bitset_part<T,T,O,S>(x,y)),pe); c("bitset_part()",bitset_part<T,T>(x,y,o,s),pe);
        if(O==0) { c("leftmost",(bitset_leftmost_get_const<T,S>()(x)),(uint64_t)x>>(sizeof(T)*8-S)); c("leftmostT",(T)(bitset_leftmost_getT(x,S)),(uint64_t)x>>(sizeof(T)*8-S)); c("bitmask",bitmask<T>(S),msk(S)); c("bitset_msb",(bitset_msb<T,S>(x).to_ullong()),(uint64_t)x>>(sizeof(T)*8-S)); c("bitset_lsb",(bitset_lsb<T,S>(x).to_ullong()),(uint64_t)x&msk(S)); c("bitset_all",bitset_all<T>(x).to_ullong(),x); c("leftmost0",(bitset_leftmost_get_const<T,0>()(x)),0); }
    }
}
template <class T,int O,int S,bool ok> struct Fields { static void go(Rec&k,mon::Rng&r) { field<T,O,S>(k,r); Fields<T,O,(sizeof(T)<8||O%7==0||S<4)?S+1:S+5,(O+((sizeof(T)<8||O%7==0||S<4)?S+1:S+5)<=(int)sizeof(T)*8)>::go(k,r); } };
template <class T,int O,int S> struct Fields<T,O,S,false> { static void go(Rec&,mon::Rng&){} };
template <class T,int O,bool ok> struct Offs { static void go(Rec&k,mon::Rng&r) { Fields<T,O,1,true>::go(k,r); Offs<T,O+1,(O+1<(int)sizeof(T)*8)>::go(k,r); } };
template <class T,int O> struct Offs<T,O,false> { static void go(Rec&,mon::Rng&){} };
// fields of no bits: masks are empty, reading gives zero and writing changes nothing
template <class T> void nobits(Rec&k,mon::Rng&r)
{
    for(long i=0;i<mon::scale(200,2000);i++) { T x=rnd<T>(r), y=rnd<T>(r); volatile int vs=0; int s=vs, o=(int)r.below(sizeof(T)*8);
        auto c=[&](const char*p,uint64_t g,uint64_t ex){ k.begin(p,x,o*100,y); k.ck(g==ex,hx(ex),hx(g)); };
        c("bitmask no bits",bitmask<T>(s),0); c("bitset_get() no bits",(bitset_get)(x,o,s),0); c("bitset_part() no bits",bitset_part<T,T>(x,y,o,s),x); }
}
template <class T> void fields() { Rec k(std::string("field ")+tn<T>()); mon::Rng r(mon::hash3(mon::seed(),k.hc,1)); Offs<T,0,true>::go(k,r); nobits<T>(k,r); mon::klass(k.cfg); mon::klass(hw?"hardware field extraction":"no hardware field extraction"); }
template <class A,int ab,class B,int bb> void cast1(Rec&k,mon::Rng&r)
{
    for(long i=0;i<mon::scale(60,2000);i++)
    {
        A x=rnd<A>(r); uint64_t in=(uint64_t)x&msk(ab); U128 e= ab>bb?(U128)in>>(ab-bb):(U128)in<<(bb-ab);
        auto c=[&](const char*o,uint64_t g,uint64_t ex){ k.begin(o,x,ab*100+bb,sizeof(A)*16+sizeof(B)); k.ck(g==ex,hx(ex),hx(g)); };
        c("cast_right_to_left",(cast_right_to_left<A,ab,B,bb>()(x)),(uint64_t)e);
        c("cast_msb",(cast_msb<A,ab,B,bb>()((A)in)),(uint64_t)e);
    }
}
template <class A,int ab,class B> void casts2(Rec&k,mon::Rng&r) { constexpr int W=sizeof(B)*8; cast1<A,ab,B,W>(k,r); cast1<A,ab,B,W-1>(k,r); cast1<A,ab,B,W/2>(k,r); cast1<A,ab,B,1>(k,r); cast1<A,ab,B,(ab<=W?ab:W)>(k,r); cast1<A,ab,B,(ab+1<=W?ab+1:W)>(k,r); cast1<A,ab,B,(ab-1>=1&&ab-1<=W?ab-1:1)>(k,r); }
template <class A,class B> void casts1(Rec&k,mon::Rng&r) { constexpr int W=sizeof(A)*8; casts2<A,W,B>(k,r); casts2<A,W-1,B>(k,r); casts2<A,W/2,B>(k,r); casts2<A,W/2+1,B>(k,r); casts2<A,W/2-1,B>(k,r); casts2<A,1,B>(k,r); casts2<A,2,B>(k,r); casts2<A,W*3/4,B>(k,r); }
template <class A> void casts() { Rec k(std::string("cast ")+tn<A>()); mon::Rng r(mon::hash3(mon::seed(),k.hc,2)); casts1<A,uint8_t>(k,r); casts1<A,uint16_t>(k,r); casts1<A,uint32_t>(k,r); casts1<A,uint64_t>(k,r); mon::klass(k.cfg); }
template <class T> void ints()
{
    using S=typename std::make_signed<T>::type; Rec k(std::string("int ")+tn<T>()); mon::Rng r(mon::hash3(mon::seed(),k.hc,3)); constexpr int W=sizeof(T)*8; mon::klass(k.cfg);
    All<T>::each(r,mon::scale(200000,5000000),[&](T x){
        if(x) { int e=0; while(!((x>>(W-1-e))&1)) e++; k.begin("findbitleftmostC",x); k.ck(findbitleftmostC(x)==e,mon::fmt("%d",e),mon::fmt("%d",findbitleftmostC(x))); if(W==64) { k.begin("count_leading_zeroes",x); k.ck(count_leading_zeroes(x)==e,mon::fmt("%d",e),mon::fmt("%d",count_leading_zeroes(x))); } }
        S s=(S)x; if(s!=std::numeric_limits<S>::lowest()) { S e=s<0?-s:s; k.begin("pcabs",x); k.ck(pcabs(s)==e,hx(e),hx(pcabs(s))); k.begin("pabs",x); k.ck(pabs(s)==e,hx(e),hx(pabs(s))); }
        S b=(S)(rnd<T>(r)>>1); if(b>0) { S q=s/b; if(s%b<0) q--; k.begin("FLOORDIV",x,b); k.ck(FLOORDIV<S>(s,b)==q,hx(q),hx(FLOORDIV<S>(s,b))); }
        S lo=(S)rnd<T>(r), hi=(S)rnd<T>(r); if(lo>hi) std::swap(lo,hi); k.begin("clamp",x,lo,hi); k.ck(::clamp<S>(s,lo,hi)==(s<lo?lo:s>hi?hi:s),"clamp","-");
        T y=rnd<T>(r); U128 m=(U128)x*y; k.begin("extramul",x,y); U128 g=(U128)nextintop<T>::extramul(x,y); k.ck(g==m,hx((uint64_t)m),hx((uint64_t)g));
        if(y) { U128 n=((U128)x<<W)|rnd<T>(r); if(W==64||true) { typename nextinttype<T>::type nn=(typename nextinttype<T>::type)n; U128 q=n/y; U128 gg=(U128)nextintop<T>::extradiv(nn,y); k.begin("extradiv",x,y); k.ck(gg==q,hx((uint64_t)q),hx((uint64_t)gg)); } }
    });
}
template <int N,bool ok> struct Least { static void go(Rec&k) { int e=N<=8?1:N<=16?2:N<=32?4:N<=64?8:16; k.begin("int_least_bits",N); k.ck(sizeof(typename int_least_bits<N>::unsigned_type)==e&&sizeof(typename int_least_bits<N>::signed_type)==e&&typename int_least_bits<N>::unsigned_type(-1)>typename int_least_bits<N>::unsigned_type(0)&&typename int_least_bits<N>::signed_type(-1)<typename int_least_bits<N>::signed_type(0),mon::fmt("%d bytes",e),"-"); Least<N+1,(N<128)>::go(k); } };
template <int N> struct Least<N,false> { static void go(Rec&){} };
static void flt()
{
    Rec k("float2bits"); BGen g(ref::FF{8,23,true},mon::hash3(mon::seed(),k.hc,4)); mon::klass(k.cfg);
    auto one=[&](uint64_t bb){ uint32_t b=(uint32_t)bb; float f; memcpy(&f,&b,4); uint32_t r=float2bits(f); k.begin("float2bits",b); bool good= f!=f?(r&0x7fffffff)>0x7f800000:f==0?(r&0x7fffffff)==0:r==b; k.ck(good,hx(b),hx(r),f==f&&f!=0); };
    g.all(mon::scale(400000,4000000),one); for(uint32_t b=0;b<0x800000;b+=mon::thorough()?1:257) if(!mon::thin()) one(b); // subnormals
}
#ifndef PART
#error PART
#endif
int main(int c,char**v)
{
    mon::init(c,v);
#if PART==0
    fields<uint8_t>(); fields<uint16_t>(); ints<uint8_t>();
#elif PART==1
    fields<uint32_t>();
#elif PART==2
    fields<uint64_t>(); ints<uint64_t>();
#elif PART==3
    casts<uint8_t>(); casts<uint16_t>(); ints<uint32_t>();
#elif PART==4
    casts<uint32_t>(); casts<uint64_t>();
#else
    ints<uint16_t>();
    { Rec k("types"); Least<1,true>::go(k);
        k.begin("largest_type",0); k.ck(sizeof(largest_type<uint8_t,int>)==4&&sizeof(largest_type<uint64_t,int>)==8&&sizeof(largest_type<int16_t,int16_t>)==2,"the larger type","-"); k.begin("nextinttype",0); k.ck(sizeof(nextinttype<uint8_t>::type)==2&&sizeof(nextinttype<uint16_t>::type)==4&&sizeof(nextinttype<uint32_t>::type)==8&&sizeof(nextinttype<uint64_t>::type)==16&&sizeof(nextinttype<int8_t>::type)==2&&sizeof(nextinttype<int16_t>::type)==4&&sizeof(nextinttype<int32_t>::type)==8,"twice the size","-"); }
    flt();
#endif
    return mon::finish();
}
