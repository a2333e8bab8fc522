#include "binary8.hpp"
#include <sstream>
#include <cstring>
static uint64_t F(float f) { if(f!=f) return 0x7fc00000; if(f==0) return 0; uint32_t b; memcpy(&b,&f,4); return b; }
uint64_t b8eval(int op,const int8_t*a,const int8_t*b)
{
    const binary8tab p(binary8tab::DeepInit(),*a), q(binary8tab::DeepInit(),*b);
    switch(op) { case 0: return (uint8_t)(p+q).v; case 1: return (uint8_t)(p-q).v; case 2: return (uint8_t)(p*q).v; case 3: return (uint8_t)(p/q).v; case 4: return (uint8_t)p.inv().v; case 5: return (uint8_t)p.half().v; case 6: return (uint8_t)p.twice().v; case 7: return F((float)p); case 8: return (uint8_t)(-p).v; case 9: return (p<q)|(p==q)<<1; case 10: return (uint8_t)binary8tab((float)p).v; default: return (uint8_t)p.square().v; }
}
