// integers and fixed point numbers
#include "posit.h"
#include "fw.hpp"
template <class P> struct PI; template <class T,int N,int ES,class FT,PositSpec S> struct PI<Posit<T,N,ES,FT,S>> { static ref::PF pf() { return ref::PF{N,ES,S==PositSpec::WithNan?ref::WithNan:S==PositSpec::WithInf?ref::WithInf:ref::WithNanInf}; } static std::string name() { return mon::fmt("P<i%d,%d,%d,u%d,%d>",(int)sizeof(T)*8,N,ES,(int)sizeof(FT)*8,(int)S); } };
static int64_t ipick(mon::Rng&r,int bits)
{
    int64_t mx=(int64_t)((((uint64_t)1)<<(bits-1))-1), mn=-mx-1; auto w=[&](uint64_t x){ x&=bits==64?~0ull:((((uint64_t)1)<<bits)-1); return (x>>(bits-1))?(int64_t)(x|~(bits==64?~0ull:((((uint64_t)1)<<bits)-1))):(int64_t)x; };
    switch(r.below(6)) { case 0: return w(r.next()); case 1: return w((((uint64_t)1)<<r.range(0,bits-1))+r.range(-2,2)); case 2: return w(-(((uint64_t)1)<<r.range(0,bits-1))+r.range(-2,2)); case 3: return r.below(2)?mx-(int64_t)r.below(3):mn+(int64_t)r.below(3); case 4: return w(r.range(-20,20)); default: return w((uint64_t)(w(r.next())>>r.range(0,bits-1))); }
}
template <class U,class T,int F> void fx(const char*un)
{
    constexpr int B=sizeof(T)*8, FB=U::FT_bits; using Tr=fixedtrait<T,B,F>; Rec k(mon::fmt("%s/fixed<%d,%d>",un,B,F)); mon::Rng r(mon::hash3(mon::seed(),k.hc,1));
    auto dec=[&](int64_t i){ ref::Num x=cut(ref::from_fixed(i,F),FB); k.begin("decode",i); U u=U::template make_fixed<Tr>((T)i); k.ck(same(u,x),ref::str(x),ustr(u),i!=0); k.begin("decode_onto_used",i); U w=used<U>(mon::mix(i)); w.template unpack_xfixed<Tr>((T)i); k.ck(alike(w,u),ustr(u),ustr(w));
        k.begin("encode",i); int64_t e=ref::to_fixed(x,B,F), g=(int64_t)u.template pack_xfixed<Tr>(); k.ck(g==e,hx(e),hx(g),i!=0); if(FB>=B) { k.begin("roundtrip",i); k.ck(g==i,hx(i),hx(g),i!=0); } };
    if(B<=16) for(int64_t i=-(1LL<<(B-1));i<(1LL<<(B-1));i++) { if(B<16||!mon::thin()) dec(i); } else for(long i=0,n=mon::scale(6000,100000);i<n;i++) dec(ipick(r,B));
    for(long i=0,n=mon::scale(6000,100000);i<n;i++)
    {
        ref::Num x=rnum(r,FB,-F-6,B-F+6); if(r.below(40)==0) x.e=(long)r.below(20000)-10000;
        k.begin("encode_any",x.e,(int64_t)(uint64_t)((x.m<<1)>>64),x.neg); U u=umake<U>(x); int64_t e=ref::to_fixed(x,B,F), g=(int64_t)u.template pack_xfixed<Tr>(); k.ck(g==e,hx(e),hx(g));
        mon::klass(x.e+F>=B-1?"saturated":x.e+F<0?"below resolution":"interior");
    }
    k.begin("special",0); k.ck(U::nan().template pack_xfixed<Tr>()==0&&U::pinfinity().template pack_xfixed<Tr>()==0&&U::ninfinity().template pack_xfixed<Tr>()==0&&U::zero().template pack_xfixed<Tr>()==0,"0","-",false);
}
template <class FT,class ET> void un()
{
    using U=Unpacked<FT,ET>; std::string s=uname<FT,ET>(); const char*n=s.c_str(); constexpr int FB=U::FT_bits;
    fx<U,int8_t,0>(n); fx<U,int8_t,1>(n); fx<U,int8_t,4>(n); fx<U,int8_t,7>(n); fx<U,int8_t,8>(n);
    fx<U,int16_t,0>(n); fx<U,int16_t,5>(n); fx<U,int16_t,8>(n); fx<U,int16_t,15>(n); fx<U,int16_t,16>(n);
    fx<U,int32_t,0>(n); fx<U,int32_t,1>(n); fx<U,int32_t,16>(n); fx<U,int32_t,24>(n); fx<U,int32_t,31>(n); fx<U,int32_t,32>(n);
    fx<U,int64_t,0>(n); fx<U,int64_t,13>(n); fx<U,int64_t,32>(n); fx<U,int64_t,63>(n); fx<U,int64_t,64>(n);
    Rec k(s+"/int"); mon::Rng r(mon::hash3(mon::seed(),k.hc,2));
    for(long i=0,c=mon::scale(100000,1000000);i<c;i++) { int v=(int)ipick(r,32); ref::Num x=cut(ref::from_i64(v),FB); k.begin("from_int",v); U u(v); k.ck(same(u,x),ref::str(x),ustr(u),v!=0); k.begin("int_onto_used",v); U w=used<U>(mon::mix(v)); w.unpack_int(v); k.ck(alike(w,u),ustr(u),ustr(w)); k.begin("to_int",v); int g=(int)u; int64_t e=ref::to_fixed(x,32,0); k.ck(g==e,hx(e),hx(g),v!=0); }
}
template <class P,class T,int F> void pfx()
{
    constexpr int B=sizeof(T)*8; using Tr=fixedtrait<T,B,F>; using U=typename P::UnpackedT; constexpr int FB=U::FT_bits; auto f=PI<P>::pf(); Rec k(PI<P>::name()+mon::fmt("/fixed<%d,%d>",B,F)); mon::Rng r(mon::hash3(mon::seed(),k.hc,1));
    for(long i=0,n=mon::scale(10000,200000);i<n;i++) { int64_t v=ipick(r,B); ref::Num x=cut(ref::from_fixed(v,F),FB); int64_t e=ref::trunc(f,x); k.begin("posit_of_fixed",v); int64_t g=P(U::template make_fixed<Tr>((T)v)).v; k.ck(g==e,hx(e),hx(g),v!=0);
        uint64_t z=r.next()>>(64-f.N); int64_t pv=(int64_t)(z<<(64-f.N))>>(64-f.N); ref::Num y=ref::decode(f,pv); e=ref::to_fixed(y,B,F); k.begin("fixed_of_posit",pv); g=(int64_t)P(typename P::DeepInit(),(typename P::value_t)pv).unpack().template pack_xfixed<Tr>(); k.ck(g==e,hx(e),hx(g),y.k==ref::FIN); }
}
template <class P> void pint()
{
    auto f=PI<P>::pf(); Rec k(PI<P>::name()+"/int"); mon::Rng r(mon::hash3(mon::seed(),k.hc,1)); constexpr int FB=P::UnpackedT::FT_bits;
    auto of=[&](int v){ int64_t e=ref::trunc(f,cut(ref::from_i64(v),FB)); k.begin("posit_of_int",v); int64_t g=P(v).v; k.ck(g==e,hx(e),hx(g),v!=0); };
    auto to=[&](int64_t pv){ ref::Num y=ref::decode(f,pv); int64_t e=ref::to_fixed(y,32,0); k.begin("int_of_posit",pv); int64_t g=(int)P(typename P::DeepInit(),(typename P::value_t)pv); k.ck(g==e,hx(e),hx(g),y.k==ref::FIN); mon::klass(y.k!=ref::FIN?"special":y.e>=31?"saturated":y.e<0?"fraction":"interior"); };
    for(int i=-70000;i<=70000;i++) if(!mon::thin()) of(i); for(long i=0,n=mon::scale(60000,500000);i<n;i++) of((int)ipick(r,32));
    if(f.N<=16) for(int64_t v=-(1LL<<(f.N-1));v<(1LL<<(f.N-1));v++) { if(f.N<9||!mon::thin()) to(v); }
    else { for(long i=0,n=mon::scale(60000,1000000);i<n;i++) to((int64_t)(r.next()<<(64-f.N))>>(64-f.N)); for(int i=0;i<32;i++) for(int d=-6;d<=6;d++) for(int s=0;s<2;s++) { ref::Num x=ref::shift(ref::from_i64(1),i); x.neg=s; int64_t b=ref::trunc(f,x)+d; if(ref::canonical(f,b)) to(b); } }
    pfx<P,int8_t,0>(); pfx<P,int8_t,7>(); pfx<P,int16_t,8>(); pfx<P,int32_t,0>(); pfx<P,int32_t,16>(); pfx<P,int32_t,31>(); pfx<P,int64_t,0>(); pfx<P,int64_t,32>();
}
int main(int c,char**v)
{
    mon::init(c,v); int w=c>1?atoi(v[1]):-1; constexpr auto N=PositSpec::WithNan, I=PositSpec::WithInf, B=PositSpec::WithNanInf;
    switch(w) { case 0: un<uint8_t,int>(); break; case 1: un<uint16_t,int>(); break; case 2: un<uint32_t,int>(); break; case 3: un<uint64_t,int>(); break; case 4: un<uint32_t,int16_t>(); break; case 5: un<uint64_t,int64_t>(); break;
     case 6: pint<Posit<int8_t,8,0,uint8_t,N>>(); pint<Posit<int8_t,8,2,uint16_t,I>>(); pint<Posit<int8_t,6,1,uint8_t,B>>(); pint<Posit<int16_t,16,1,uint16_t,N>>(); pint<Posit<int16_t,12,2,uint16_t,B>>(); pint<Posit<int16_t,16,3,uint32_t,I>>(); break;
     case 7: pint<Posit<int32_t,32,2,uint32_t,N>>(); pint<Posit<int32_t,32,2,uint64_t,B>>(); pint<Posit<int32_t,28,0,uint32_t,I>>(); pint<Posit<int64_t,60,2,uint64_t,N>>(); pint<Posit<int64_t,40,3,uint64_t,B>>(); pint<Posit<int64_t,63,0,uint64_t,I>>(); break; }
    return mon::finish();
}
