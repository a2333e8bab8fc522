// adversarial sources of numbers for encodings
#pragma once
#include "pw.hpp"
#include <cstring>
inline double d_of(uint64_t b) { double d; memcpy(&d,&b,8); return d; }
inline uint64_t b_of(double d) { uint64_t b; memcpy(&b,&d,8); return b; }
inline float f_of(uint32_t b) { float d; memcpy(&d,&b,4); return d; }
inline uint32_t b_off(float d) { uint32_t b; memcpy(&b,&d,4); return b; }
struct DGen
{
    Gen &g; mon::Rng &r; DGen(Gen&g_):g(g_),r(g_.r){}
    std::vector<double> specials()
    {
        std::vector<double> s={0.0,-0.0,1.0,-1.0,0.5,2.0,1.5,3.0,-0.75,INFINITY,-INFINITY,NAN,-NAN,d_of(1),d_of(2),d_of(0xFFFFFFFFFFFFFULL),d_of(0x10000000000000ULL),d_of(0x7fefffffffffffffULL),-d_of(0x7fefffffffffffffULL),d_of(0x7ff0000000000001ULL),d_of(0xfff8000000000123ULL),d_of(0x8000000000000001ULL),1e300,-1e300,1e-300,-1e-300,M_PI,-M_PI,1.0/3};
        for(int e=-1074;e<=1023;e+=(e>-140&&e<140)?1:37) { double d=std::ldexp(1.0,e); s.push_back(d); s.push_back(-d); s.push_back(std::nextafter(d,INFINITY)); s.push_back(std::nextafter(d,0)); s.push_back(-std::nextafter(d,0)); }
        return s;
    }
    double near(int64_t v) // at, just above or just below a posit value
    {
        double d=ref::to_double(ref::decode(g.f,v));
        switch(r.below(5)) { case 0: return d; case 1: return std::nextafter(d,INFINITY); case 2: return std::nextafter(d,-INFINITY);
          case 3: { int64_t w= v<-(g.top+1)-1 ? v+1 : v; double e=ref::to_double(ref::decode(g.f,w)); double m=d/2+e/2; switch(r.below(3)) { case 0:return m; case 1:return std::nextafter(m,INFINITY); default:return std::nextafter(m,-INFINITY);} }
          default: return d*(1+ (double)(r.next()>>11)/9007199254740992.0); }
    }
    double pick()
    {
        switch(r.below(6)) { case 0: return d_of(r.next());
          case 1: { int e=r.range(-1074,1023); return std::ldexp((double)(r.next()>>11)/4503599627370496.0, e)*((r.next()&1)?1:-1); }
          case 2: { uint64_t m=r.next()&0xFFFFFFFFFFFFFULL; int z=r.range(0,52); m=(m>>z)<<z; return d_of((r.next()&0x8000000000000000ULL)|((uint64_t)(1023+r.range(-70,70))<<52)|m); }
          default: return near(g.pick()); }
    }
    float pickf()
    {
        switch(r.below(6)) { case 0: return f_of((uint32_t)r.next());
          case 1: { uint32_t m=r.next()&0x7FFFFF; int z=r.range(0,23); m=(m>>z)<<z; return f_of(((uint32_t)r.next()&0x80000000u)|((uint32_t)(127+r.range(-126,127))<<23)|m); }
          case 2: return f_of(((uint32_t)r.next()&0x80000000u)|((uint32_t)r.next()&0x7FFFFF)>>r.range(0,22));
          default: { float a=(float)near(g.pick()); return r.below(2)?a:std::nextafterf(a,r.below(2)?INFINITY:-INFINITY); } }
    }
    int picki()
    {
        switch(r.below(5)) { case 0: return (int)(uint32_t)r.next();
          case 1: { int64_t a=((int64_t)1)<<r.range(0,31); a+=r.range(-2,2); if(r.next()&1) a=-a; return (int)(a>2147483647?2147483647:a<-2147483648LL?(-2147483647-1):a); }
          case 2: return r.range(-300,300);
          default: return (int)((int32_t)(uint32_t)r.next()>>r.range(0,31)); }
    }
};
