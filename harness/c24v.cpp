// vector posits on streams (their header and the one of the tabulated posits cannot meet in one translation unit)
#include <x86intrin.h>
#include <sstream>
#include "simdposit8.hpp"
#include "prt.hpp"
static float fval(const ref::PF&f,const ref::Num&x) { (void)f; return ref::to_float(x); }
// vectors of posits, their lanes as numbers and raw lanes (the masks comparisons give)
static void vectors()
{
    Out o("simd_posit8_32"); mon::Rng r(mon::hash3(mon::seed(),o.hc,1)); long n=mon::scale(1500,30000);
    for(long i=0;i<n;i++)
    {
        alignas(32) int8_t a[32]; bool nan=false; for(int j=0;j<32;j++) { a[j]=(int8_t)(i%3==0?(r.below(2)?-1:0):r.next()); if(a[j]==-128) a[j]=r.below(8)?1:-128; nan=nan||a[j]==-128; } __m256i m=_mm256_load_si256((__m256i*)a); simd_posit8_32 p(m); int64_t key=(int64_t)mon::hash3((uint64_t)a[0]*256+(uint8_t)a[1],(uint64_t)a[2]*256+(uint8_t)a[31],i);
        Fmt f=rfmt(r,i&1); f.width=0; auto b=r.below(3)==0?std::ios::hex:r.below(2)?std::ios::oct:std::ios::dec;
        o.run(key,b,f,[&](std::ostream&s){ return &(s<<m); },[&](std::ostream&s){ auto af=s.flags(); s<<"256i("<<std::hex; for(int j=0;j<32;j++) s<<" "<<(int)(uint8_t)a[j]; s.flags(af); s<<")"; },true);
        auto lanes=[&](std::ostream&s){ s<<"a32("; for(int j=0;j<32;j++) s<<" "<<fval(ref::PF{8,0,ref::WithNan},ref::decode(ref::PF{8,0,ref::WithNan},a[j])); s<<")"; };
        o.run(key,b,f,[&](std::ostream&s){ return &(s<<p); },lanes,!nan); o.run(key,b,f,[&](std::ostream&s){ return &(s<<(std::array<float,32>)p); },lanes,!nan);
    }
}
int main(int c,char**v) { mon::init(c,v); vectors(); return mon::finish(); }
