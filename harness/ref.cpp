#include "ref.hpp"
#include <cstring>
#include <cstdio>
#include <cmath>
namespace ref {

static Num mk(Kind k, bool n=false) { Num r; r.k=k; r.neg=n; return r; }
static Num norm(bool neg, long e, u128 m, bool st) // m!=0 : normalise so that bit127 is set; value m*2^(e-127)
{
    Num r; r.k=FIN; r.neg=neg; r.st=st;
    while(!(m>>127)) { m<<=1; e--; }
    r.m=m; r.e=e; return r;
}

// ---- posit decoding, one bit at a time -------------------------------------------------
static bool special(const PF&f,int64_t v,Num&out)
{
    if(v==0) { out=mk(ZERO); return true; }
    if(v==TOP(f)) { out = f.spec==WithInf ? mk(INF) : mk(NAN_); return true; }
    if(f.spec==WithNanInf && (v==PINF(f)||v==NINF(f))) { out=mk(INF,v<0); return true; }
    return false;
}
Fields fields(const PF&f,int64_t v)
{
    uint64_t a = v<0 ? (uint64_t)(-v) : (uint64_t)v;
    int i = f.N-2;              // first regime bit
    int first = (a>>i)&1, run=0;
    while(i>=0 && (int)((a>>i)&1)==first) { run++; i--; }
    Fields q; q.reg = first ? run-1 : -run;
    q.rs = run;
    if(i>=0) { q.rs++; i--; }   // terminating bit
    q.exp=0; q.es=0;
    for(int k=0;k<f.es;k++) { q.exp<<=1; if(i>=0) { q.exp|=(a>>i)&1; i--; q.es++; } }
    q.fs = i+1; q.frac = q.fs>0 ? (a & ((((uint64_t)1)<<q.fs)-1)) : 0;
    return q;
}
Num decode(const PF&f,int64_t v)
{
    Num s; if(special(f,v,s)) return s;
    Fields q=fields(f,v);
    u128 m = ((u128)1<<q.fs) | q.frac;   // value = m / 2^fs * 2^E
    long E = (long)q.reg*(1L<<f.es)+q.exp;
    return norm(v<0, E + 127 - q.fs, m, false);
}
// ---- posit encoding: emit the infinite bit string, keep N-1 bits -------------------------
Enc encode(const PF&f,const Num&x)
{
    switch(x.k)
    {
    case ZERO: return {0,0};
    case NAN_: { int64_t r = f.spec==WithInf ? PINF(f) : TOP(f); return {r,r}; }
    case INF: { int64_t r = f.spec==WithNan ? TOP(f) : x.neg ? NINF(f) : PINF(f); return {r,r}; }
    default: break;
    }
    int64_t maxp = MAXPOS(f);
    long sc = 1L<<f.es;
    long reg = x.e>=0 ? x.e/sc : -((-x.e + sc-1)/sc);
    long exp = x.e - reg*sc;
    int64_t lo,hi;
    if(reg >= f.N-1) { lo=hi=maxp; }           // at or beyond the largest regime: saturate
    else if(reg < -(f.N-2)) { lo=hi=1; }
    else
    {
        uint64_t acc=0; int n=0; bool rest=false; const int W=f.N-1;
        auto put=[&](int b){ if(n<W) { acc=(acc<<1)|(uint64_t)b; n++; } else if(b) rest=true; };
        if(reg>=0) { for(long k=0;k<=reg;k++) put(1); put(0); }
        else { for(long k=0;k<-reg;k++) put(0); put(1); }
        for(int k=f.es-1;k>=0;k--) put((exp>>k)&1);
        for(int k=126;k>=0;k--) { if(n<W) put((int)((x.m>>k)&1)); else { if(x.m & ((((u128)1)<<(k+1))-1)) rest=true; break; } }
        if(x.st) rest=true;
        lo=(int64_t)acc; hi = rest ? lo+1 : lo;
        if(lo==0) { lo=1; hi=1; }    // below the smallest positive
        if(lo>maxp) lo=maxp;
        if(hi>maxp) hi=maxp;
    }
    if(x.neg) { lo=-lo; hi=-hi; }
    return {lo,hi};
}
int64_t trunc(const PF&f,const Num&x) { return encode(f,x).lo; }

// ---- floats ------------------------------------------------------------------------------
Num decode_float(const FF&f,uint64_t b)
{
    uint64_t fr = b & ((((uint64_t)1)<<f.fbits)-1);
    long ex = (long)((b>>f.fbits) & ((((uint64_t)1)<<f.ebits)-1));
    bool neg = (b>>(f.fbits+f.ebits))&1;
    long bias=(1L<<(f.ebits-1))-1, emax=(1L<<f.ebits)-1;
    if(ex==emax) return fr ? mk(NAN_) : mk(INF,neg);
    if(ex==0) { if(!fr || !f.denorm) return mk(ZERO); return norm(neg, 1-bias + 127 - f.fbits, fr, false); }
    return norm(neg, ex-bias+127-f.fbits, fr | (((uint64_t)1)<<f.fbits), false);
}
uint64_t encode_float(const FF&f,const Num&x)
{
    uint64_t sg = x.neg ? ((uint64_t)1)<<(f.fbits+f.ebits) : 0;
    long bias=(1L<<(f.ebits-1))-1, emax=(1L<<f.ebits)-1;
    uint64_t fm=(((uint64_t)1)<<f.fbits)-1;
    switch(x.k){ case ZERO: return 0; case INF: return sg | ((uint64_t)emax<<f.fbits);
      case NAN_: return ((uint64_t)emax<<f.fbits) | (((uint64_t)1)<<(f.fbits-1)); default: break; }
    long re = x.e+bias;
    if(re>=emax) return sg | ((uint64_t)(emax-1)<<f.fbits) | fm;
    if(re>=1) return sg | ((uint64_t)re<<f.fbits) | ((uint64_t)(x.m>>(127-f.fbits)) & fm);
    if(!f.denorm) return sg;
    long sh = 127-f.fbits + (1-re);
    return sg | (sh>127 ? 0 : (uint64_t)(x.m>>sh));
}
static const FF F32{8,23,true}, F64{11,52,true};
Num from_double(double d) { uint64_t b; memcpy(&b,&d,8); return decode_float(F64,b); }
Num from_float(float d) { uint32_t b; memcpy(&b,&d,4); return decode_float(F32,b); }
double to_double(const Num&x) { uint64_t b=encode_float(F64,x); double d; memcpy(&d,&b,8); return d; }
float to_float(const Num&x) { uint32_t b=(uint32_t)encode_float(F32,x); float d; memcpy(&d,&b,4); return d; }
Num from_fixed(int64_t i,int fb)
{
    if(i==0) return mk(ZERO);
    uint64_t a = i<0 ? 0-(uint64_t)i : (uint64_t)i;
    return norm(i<0, 127-fb, a, false);
}
Num from_i64(int64_t i) { return from_fixed(i,0); }
int64_t to_fixed(const Num&x,int tb,int fb)
{
    if(x.k!=FIN) return 0;
    int64_t mx = (int64_t)((((uint64_t)1)<<(tb-1))-1), mn=-mx-1;
    long e = x.e+fb;             // value*2^fb has exponent e
    if(e<0) return 0;
    if(e>=tb) return x.neg?mn:mx;
    u128 a = x.m>>(127-e);
    if(x.neg) return a > (u128)mx+1 ? mn : (int64_t)(0-(uint64_t)a);
    return a > (u128)mx ? mx : (int64_t)a;
}
// ---- arithmetic --------------------------------------------------------------------------
Num neg(Num a) { a.neg=!a.neg; if(a.k==NAN_||a.k==ZERO) a.neg=false; return a; }
Num shift(const Num&a,long k) { Num r=a; if(r.k==FIN) r.e+=k; return r; }
Num add(const Num&a,const Num&b)
{
    if(a.k==NAN_||b.k==NAN_) return mk(NAN_);
    if(a.k==INF||b.k==INF) { if(a.k==INF&&b.k==INF) return a.neg==b.neg?a:mk(NAN_); return a.k==INF?a:b; }
    if(a.k==ZERO) return b;
    if(b.k==ZERO) return a;
    Num x=a,y=b; if(y.e>x.e || (y.e==x.e && y.m>x.m)) { x=b; y=a; }   // |x|>=|y|
    long g=x.e-y.e;
    // work with one spare bit on top : use m>>2
    u128 mx=x.m>>2, my=y.m>>2; bool st=x.st;   // significands here never use the low bits (<=64 bit inputs) unless products (122 bits)
    bool sy=y.st || (y.m&3), sx=x.st || (x.m&3); st=sx;
    if(g>=126) { sy = true; my=0; }
    else { if(g && (my & ((((u128)1)<<g)-1))) sy=true; my>>=g; }
    u128 r; bool neg_=x.neg;
    if(x.neg==y.neg) { r=mx+my; st = st||sy; }
    else { r=mx-my; if(sy && !sx) { r-=1; st=true; } else if(sy&&sx) { st=true; } else st=sx; }
    if(r==0 && !st) return mk(ZERO);
    if(r==0) { r=1; }
    return norm(neg_, x.e+2, r, st);
}
Num mul(const Num&a,const Num&b)
{
    if(a.k==NAN_||b.k==NAN_) return mk(NAN_);
    if(a.k==INF||b.k==INF) { if(a.k==ZERO||b.k==ZERO) return mk(NAN_); return mk(INF,a.neg!=b.neg); }
    if(a.k==ZERO||b.k==ZERO) return mk(ZERO);
    uint64_t x=(uint64_t)(a.m>>64), y=(uint64_t)(b.m>>64); // inputs have <=64 significant bits
    return norm(a.neg!=b.neg, a.e+b.e+1, (u128)x*y, a.st||b.st||(uint64_t)a.m||(uint64_t)b.m);
}
Num div(const Num&a,const Num&b)
{
    if(a.k==NAN_||b.k==NAN_) return mk(NAN_);
    bool n = a.neg!=b.neg;
    if(a.k==INF) return b.k==INF ? mk(NAN_) : b.k==ZERO ? mk(INF,a.neg) : mk(INF,n);
    if(b.k==INF) return mk(ZERO);
    if(b.k==ZERO) return a.k==ZERO ? mk(NAN_) : mk(INF,a.neg);
    if(a.k==ZERO) return mk(ZERO);
    if((uint64_t)b.m) // wide divisor: one bit at a time
    {
        u128 r=a.m, q=0; for(int i=0;i<120;i++) { bool c=false; if(i) { c=r>>127; r<<=1; } q<<=1; if(c||r>=b.m) { r-=b.m; q|=1; } }
        return norm(n, a.e-b.e+8, q, r!=0||a.st);
    }
    uint64_t y=(uint64_t)(b.m>>64);
    u128 q=a.m/y, r=a.m%y;   // a.m < 2^128, y>=2^63 : q has 64 or 65 bits
    q=(q<<62)|((r<<62)/y); r=(r<<62)%y;
    return norm(n, a.e-b.e+1, q, r!=0||a.st);
}
int cmp(const Num&a,const Num&b)
{
    auto sg=[](const Num&x){ return x.k==ZERO?0:x.neg?-1:1; };
    int sa=sg(a), sb=sg(b);
    if(sa!=sb) return sa<sb?-1:1;
    if(sa==0) return 0;
    int m;
    if(a.k==INF||b.k==INF) m = (a.k==INF)-(b.k==INF);
    else if(a.e!=b.e) m = a.e<b.e?-1:1;
    else m = a.m<b.m?-1:a.m>b.m?1:0;
    return sa*m;
}
std::string str(const Num&a)
{
    char b[128];
    switch(a.k){case ZERO: return "0"; case NAN_: return "nan"; case INF: return a.neg?"-inf":"inf"; default:;}
    snprintf(b,sizeof b,"%s1.%015llx*2^%ld%s",a.neg?"-":"",(unsigned long long)((a.m<<1)>>68),a.e,a.st?"+":"");
    return b;
}
std::string pstr(const PF&f,int64_t v)
{
    char b[160];
    snprintf(b,sizeof b,"%lld=%s",(long long)v,str(decode(f,v)).c_str());
    return b;
}
}
