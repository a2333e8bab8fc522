// vector posits and the software half for the purity workload (each needs a translation unit and flags of its own)
#include <cstdint>
#include <cstring>
#include <sstream>
#ifdef SOFTHALF
#define float16n32 float16n32_sw
#define float16nto32 float16nto32_sw
#define float32to16n float32to16n_sw
#include "float16native32.hpp"
#ifdef __F16C__
#error the software conversion is wanted here
#endif
static uint64_t R(float16n32 x) { uint16_t r=x.raw(); return (r&0x7c00)==0x7c00&&(r&0x3ff)?0x7e00:r; }
static uint64_t F(float f) { if(f!=f) return 0x7fc00000; if(f==0) return 0; uint32_t b; memcpy(&b,&f,4); return b; }
uint64_t heval(int op,uint16_t a,uint16_t b)
{
    const float16n32 p(false,a), q(false,b);
    switch(op) { case 0: return R(p+q); case 1: return R(p-q); case 2: return R(p*q); case 3: return R(p/q); case 4: return F((float)p); case 5: return (p<q)|(p==q)<<1|(p>=q)<<2; case 6: return R(mulAdd(p,q,p)); case 7: return R(sqrt(p)); case 8: return R(rem(p,q)); case 9: return R(float16n32((float)q)); case 10: return R(inv(p)); default: { float16n32 z=p; z+=q; z*=p; return R(z); } }
}
#elif defined(__AVX2__)
#include <x86intrin.h>
#include "simdposit8.hpp"
using V=simd_posit8_32;
static uint64_t H(__m256i m) { unsigned char c[32]; _mm256_storeu_si256((__m256i*)c,m); uint64_t h=1469598103934665603ull; for(unsigned char x:c) h=(h^x)*1099511628211ull; return h; }
static uint64_t H(V v) { return H(v.uu()); }
bool simdhere() { return true; }
uint64_t simdeval(int op,const void*a,const void*b)
{
    V p(_mm256_loadu_si256((const __m256i*)a)), q(_mm256_loadu_si256((const __m256i*)b));
    switch(op) { case 0: return H(p+q); case 1: return H(p-q); case 2: return H(p*q); case 3: return H(p/q); case 4: return H(p.inv()); case 5: return H(p.half()); case 6: return H(p.twice()); case 7: return H(p.exp2()); case 8: return H(p.square()); case 9: return H(-p); case 10: return H(p.is_negative()); case 11: { std::array<float,32> f=(std::array<float,32>)p; uint64_t h=7; for(float x:f) { uint32_t u; memcpy(&u,&x,4); if(x!=x) u=0x7fc00000; h=h*1099511628211ull^u; } return h; } case 12: return H(p+p); case 13: return H(q/p+p*q); case 14: { std::ostringstream o; o<<p; uint64_t h=3; for(char x:o.str()) h=h*1099511628211ull^(unsigned char)x; return h; } default: return H(gauss2(p,q,p+q)); }
}
#else
bool simdhere() { return false; }
uint64_t simdeval(int,const void*,const void*) { return 0; }
#endif
