// one translation unit of the program that is made of many: KIND 0 posits and tabulated posits, 1 other order of inclusion, 2 the 8 bit float, 3 vectors
#include "c28.hpp"
#if KIND==0
#include "posit.h"
#include "posit8.hpp"
#include "posit10.hpp"
#include "posit12.hpp"
#include "positf.h"
#include "anyfloat.hpp"
#include "float16native32.hpp"
#include "bithippop.hpp"
#include "typehelpers.hpp"
#include "fixedtraits.hpp"
#elif KIND==1
#include "typehelpers.hpp"
#include "bithippop.hpp"
#include "float16native32.hpp"
#include "anyfloat.hpp"
#include "positf.h"
#include "posit12.hpp"
#include "posit10.hpp"
#include "posit8.hpp"
#include "posit.h"
#elif KIND==2
#include "float16native32.hpp"
#include "anyfloat.hpp"
#include "binary8.hpp"
#else
#include <x86intrin.h>
#include "posit.h"
#include "simdposit8.hpp"
#endif
#include <sstream>
#include <new>
#define TUC_(a,b) a##b
#define TUC(a,b) TUC_(a,b)
namespace TUC(tu,TUN) {
template <class P> uint64_t bits(const P&p) { uint64_t v=0; memcpy(&v,&p,sizeof(P)<8?sizeof(P):8); return v; }
template <class P> uint64_t res(const P&p) { float f=(float)p; return f!=f?~0ull:bits(p); } // a result: every NaN is one value
// a fresh object on storage that was used before
template <class P> int64_t fresh(int how) { alignas(P) unsigned char b[sizeof(P)*3]; memset(b,0xa5,sizeof b); void*w=b+sizeof(P); P*p=how==0?new(w) P:how==1?new(w) P():new(w) P{}; int64_t r=(int64_t)bits(*p); for(size_t i=0;i<sizeof(P);i++) if(b[i]!=0xa5||b[2*sizeof(P)+i]!=0xa5) r=-2; return r; }
template <class P> auto print(const P&p,const P&q,int) -> decltype(std::declval<std::ostream&>()<<p,uint64_t()) { std::ostringstream o; o<<std::hex<<p<<std::dec<<q; uint64_t h=5; for(char c:o.str()) h=h*1099511628211ull^(unsigned char)c; return h; }
template <class P> uint64_t print(const P&,const P&,long) { return 4; }
template <class P> uint64_t run(int op,const void*x,const void*y)
{
    const P&p=*(const P*)x; const P&q=*(const P*)y;
    switch(op) { case 0: return res<P>(p+q); case 1: return res<P>(p-q); case 2: return [&]{ P r=p*q; return res<P>(r); }(); case 3: return res<P>(p/q); case 4: return res<P>(P(-p)); case 5: return (p<q)|(p==q)<<1|(p>q)<<2; case 6: { float f=(float)p; if(f!=f) return 1; uint32_t u; memcpy(&u,&f,4); return u; } case 7: { double f=(double)p; if(f!=f) return 1; uint64_t u; memcpy(&u,&f,8); return u; } case 8: { float f=(float)q; return f==f?res<P>(P(f)):2; } case 9: { P r=p; r+=q; r*=p; return res<P>(r); }
      default: { float f=(float)p; if(f!=f||std::isinf(f)||(float)q!=(float)q) return 3; return print<P>(p,q,0); } }
}
template <class P> P callee(P a,P b) { P t[3]={b,a,b}; std::swap(t[0],t[1]); t[2]=t[0]; return t[2]; } // the first argument
template <class P> uint64_t caller(void(*f)(),const void*x,const void*y) { return bits<P>(((P(*)(P,P))f)(*(const P*)x,*(const P*)y)); }
#define API(W,...) Api28{#__VA_ARGS__,(unsigned)sizeof(__VA_ARGS__),(unsigned)alignof(__VA_ARGS__),W,std::is_trivially_destructible<__VA_ARGS__>::value&&std::is_standard_layout<__VA_ARGS__>::value,std::is_polymorphic<__VA_ARGS__>::value,fresh<__VA_ARGS__>,run<__VA_ARGS__>,11,(void(*)())(__VA_ARGS__(*)(__VA_ARGS__,__VA_ARGS__))callee<__VA_ARGS__>,caller<__VA_ARGS__>}
#define POSIT_(T,N,ES,FT,S) API(sizeof(T)*8,Posit<T,N,ES,FT,PositSpec::S>),
#if KIND<=1
static const Api28 api[]={CONFIGS(POSIT_) API(8,posit8),API(16,posit10),API(16,posit12),API(16,PositF<int16_t,16,1,float,PositSpec::WithNan>),API(32,PositF<int32_t,32,2,double,PositSpec::WithNanInf>),API(16,anyfloat_emu<5,10,halffloat,uint16_t,float>),API(8,anyfloat_emu<5,2,microfloat,uint8_t,float>),API(16,float16n32)};
#elif KIND==2
static const Api28 api[]={API(8,binary8tab),API(16,anyfloat_emu<5,10,halffloat,uint16_t,float>),API(8,anyfloat_emu<5,2,microfloat,uint8_t,float>),API(16,float16n32)};
#else
struct Lanes { static uint64_t h(__m256i m) { unsigned char c[32]; memcpy(c,&m,32); uint64_t h=9; for(unsigned char x:c) h=h*1099511628211ull^x; return h; } };
static uint64_t vrun(int op,const void*x,const void*y) { __m256i m,k; memcpy(&m,x,32); memcpy(&k,y,32); using V=simd_posit8_32; V p(m),q(k); switch(op) { case 0: return Lanes::h((p+q).uu()); case 1: return Lanes::h((p-q).uu()); case 2: return Lanes::h((p*q).uu()); case 3: return Lanes::h((p/q).uu()); case 4: return Lanes::h((-p).uu()); case 5: return Lanes::h(p.inv().uu()); case 6: return Lanes::h(p.twice().uu()); default: { std::ostringstream o; o<<p<<m; uint64_t h=5; for(char c:o.str()) h=h*1099511628211ull^(unsigned char)c; return h; } } }
static simd_posit8_32 vcallee(simd_posit8_32 a,simd_posit8_32 b) { simd_posit8_32 t[3]={b,a,b}; std::swap(t[0],t[1]); t[2]=t[0]; return t[2]; }
static uint64_t vcaller(void(*f)(),const void*x,const void*y) { __m256i m,k; memcpy(&m,x,32); memcpy(&k,y,32); simd_posit8_32 r=((simd_posit8_32(*)(simd_posit8_32,simd_posit8_32))f)(simd_posit8_32(m),simd_posit8_32(k)); uint64_t h=Lanes::h(r.uu()); return h==Lanes::h(m)?*(const uint64_t*)x:~*(const uint64_t*)x; }
static const Api28 api[]={Api28{"simd_posit8_32",(unsigned)sizeof(simd_posit8_32),(unsigned)alignof(simd_posit8_32),256,std::is_standard_layout<simd_posit8_32>::value,std::is_polymorphic<simd_posit8_32>::value,nullptr,vrun,8,(void(*)())vcallee,vcaller},POSIT_(int8_t,8,0,uint16_t,WithNan)};
#endif
}
extern const Tu28 TUC(tu28_,TUN); const Tu28 TUC(tu28_,TUN)={HOW,TUC(tu,TUN)::api,(int)(sizeof(TUC(tu,TUN)::api)/sizeof(Api28))};
