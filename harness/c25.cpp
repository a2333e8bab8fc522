// 32 lane vector posits
#include <x86intrin.h>
#include "simdposit8.hpp"
#include "srcgen.hpp"
#include <sstream>
#include <array>
namespace sc { // scalar answers, from posit8 in another translation unit
    int8_t add(int8_t,int8_t); int8_t sub(int8_t,int8_t); int8_t mul(int8_t,int8_t); int8_t div(int8_t,int8_t); int8_t inv(int8_t); int8_t half(int8_t); int8_t twice(int8_t); int8_t exp2(int8_t); int8_t square(int8_t); int8_t neg(int8_t); float val(int8_t); bool isneg(int8_t); bool isnan(int8_t); bool isinf(int8_t); int8_t fromf(float); int8_t fromi(int); bool negexp(int8_t); }
using V=simd_posit8_32; typedef std::array<int8_t,32> A;
static V ld(const A&a) { return V(_mm256_loadu_si256((const __m256i*)a.data())); }
static A st(__m256i m) { A a; _mm256_storeu_si256((__m256i*)a.data(),m); return a; }
static A st(V v) { return st(v.uu()); }
static uint64_t hc; static ref::PF f{8,0,ref::WithNan};
static void lanes(const char*op,const A&a,const A&b,const A&got,const A&exp)
{
    for(int i=0;i<32;i++)
    {
        mon::cur=mon::Cur{"simd_posit8_32",op,a[i],b[i],i}; mon::seen(mon::hash3(hc^mon::mix((uint8_t)a[i]),(uint8_t)b[i]*64+i,mon::hstr(op)),a[i]!=0&&a[i]!=-128);
        if(got[i]!=exp[i]) mon::violation(std::string("simd|")+op,mon::fmt("simd|%s|%d|%d|lane%d",op,a[i],b[i],i),mon::fmt("expected %d got %d",exp[i],got[i]));
    }
    if(mon::want_sample()) mon::sample(mon::fmt("simd %s lane0 a=%d b=%d -> %d",op,a[0],b[0],got[0]));
}
template <class F> A map1(const A&a,F fn) { A r; for(int i=0;i<32;i++) r[i]=fn(a[i]); return r; }
template <class F> A map2(const A&a,const A&b,F fn) { A r; for(int i=0;i<32;i++) r[i]=fn(a[i],b[i]); return r; }
static void unary(const A&a)
{
    V v=ld(a); A z{}; auto m=[](bool b)->int8_t{ return b?-1:0; };
    lanes("inv",a,z,st(v.inv()),map1(a,sc::inv)); lanes("inv_fn",a,z,st(inv(v)),map1(a,sc::inv)); lanes("half",a,z,st(v.half()),map1(a,sc::half)); lanes("half_fn",a,z,st(half(v)),map1(a,sc::half)); lanes("twice",a,z,st(v.twice()),map1(a,sc::twice)); lanes("twice_fn",a,z,st(twice(v)),map1(a,sc::twice));
    lanes("exp2",a,z,st(v.exp2()),map1(a,sc::exp2)); lanes("exp2_fn",a,z,st(exp2(v)),map1(a,sc::exp2)); lanes("square",a,z,st(v.square()),map1(a,sc::square)); lanes("square_fn",a,z,st(square(v)),map1(a,sc::square)); lanes("neg",a,z,st(-v),map1(a,sc::neg)); lanes("neg_fn",a,z,st(neg(v)),map1(a,sc::neg));
    lanes("is_negative",a,z,st(v.is_negative()),map1(a,[&](int8_t x){ return m(sc::isneg(x)); })); lanes("is_nan",a,z,st(v.is_nan()),map1(a,[&](int8_t x){ return m(sc::isnan(x)); })); lanes("is_infinity",a,z,st(v.is_infinity()),map1(a,[&](int8_t x){ return m(sc::isinf(x)); }));
    lanes("has_neg_exponent",a,z,st(v.has_neg_exponent()),map1(a,[&](int8_t x){ return m(sc::negexp(x)); })); lanes("init",a,z,st(V(V::Init(),v.uu())),a);
    std::array<float,32> g=(std::array<float,32>)v; A ok=map1(a,[](int8_t){ return (int8_t)1; }), got; for(int i=0;i<32;i++) { float e=sc::val(a[i]); got[i]= (e!=e&&g[i]!=g[i])||e==g[i]; } lanes("to_floats",a,z,got,ok);
    lanes("operand",a,z,st(v),a);
}
static void binary(const A&a,const A&b)
{
    V v=ld(a), w=ld(b); A u=map1(a,[](int8_t x){ return sc::neg(x); }); { A s=map2(b,a,sc::add), d=map2(a,b,sc::sub); d=map2(d,s,sc::div); lanes("gauss2",a,b,st(gauss2(v,w,w+v)),map1(map1(map1(map1(d,sc::square),sc::half),sc::neg),sc::exp2)); lanes("neg_twice",a,b,st(-(-v)),map1(u,sc::neg)); }
    lanes("add",a,b,st(v+w),map2(a,b,sc::add)); lanes("sub",a,b,st(v-w),map2(a,b,sc::sub)); lanes("mul",a,b,st(v*w),map2(a,b,sc::mul)); lanes("div",a,b,st(v/w),map2(a,b,sc::div)); lanes("operand_a",a,b,st(v),a); lanes("operand_b",a,b,st(w),b);
}
int main(int c,char**v)
{
    mon::init(c,v); hc=mon::hstr("simd"); mon::Rng r(mon::hash3(mon::seed(),hc,1)); std::stringstream sink; auto*old=std::cout.rdbuf(sink.rdbuf());
    for(int base=0;base<256;base++) { A a; for(int i=0;i<32;i++) a[i]=(int8_t)(base+i*37); unary(a); } mon::klass("every pattern in every lane");
    for(long k=0,n=mon::scale(500,5000);k<n;k++) { A a; for(auto&x:a) x=(int8_t)r.next(); unary(a); }
    for(int rot=0;rot<mon::scale(4,32);rot++) for(int a0=0;a0<256;a0++) for(int b0=0;b0<256;b0+=32) { A a,b; for(int i=0;i<32;i++) { int l=(i+rot*9+(int)mon::seed())&31; a[l]=(int8_t)a0; b[l]=(int8_t)(b0+i); } binary(a,b); } mon::klass("every pair, one operand equal in all lanes");
    for(int d=0;d<256;d++) for(int a0=0;a0<256;a0+=32) { A a,b; for(int i=0;i<32;i++) { a[i]=(int8_t)(a0+i); b[i]=(int8_t)(a0+i+d); } binary(a,b); } mon::klass("every pair, all lanes different");
    for(long k=0,n=mon::scale(20000,500000);k<n;k++) { A a,b; for(auto&x:a) x=(int8_t)r.next(); for(auto&x:b) x=(int8_t)r.next(); if(k&1) for(int i=0;i<32;i++) if(r.below(4)) b[i]=a[i]; binary(a,b); } mon::klass("random lanes");
    Gen g(f,r.next()); DGen s(g); A z{};
    for(long k=0,n=mon::scale(3000,30000);k<n;k++) { float x=s.pickf(); A e; e.fill(sc::fromf(x)); lanes("from_float",e,z,st(V(x)),e); int i=s.picki(); e.fill(sc::fromi(i)); lanes("from_int",e,z,st(V(i)),e); } mon::klass("broadcast");
    { A a; for(int i=0;i<32;i++) a[i]=(int8_t)(i*8); std::ostringstream o,e; o<<ld(a); { std::ostringstream p; p<<(std::array<float,32>)ld(a); if(p.str()!=o.str()) mon::violation("simd|print","simd|print_array","the array of lane values prints '"+p.str()+"', the vector '"+o.str()+"'"); } e<<"a32("; for(int i=0;i<32;i++) e<<" "<<sc::val(a[i]); e<<")"; A one,got; one.fill(1); got.fill(o.str()==e.str()); lanes("print",a,z,got,one); }
    std::cout.rdbuf(old); if(sink.str().size()) mon::violation("simd|silent","simd|silent","operations wrote to std::cout: "+sink.str().substr(0,80)); return mon::finish();
}
