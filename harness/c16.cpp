// half precision over single precision, hardware and software conversion
#include "float16native32.hpp"
#include "fw.hpp"
#include <sstream>
static const ref::FF H{5,10,true};
#if defined(__AVX__) && defined(__F16C__)
static const bool HARD=true;
#else
static const bool HARD=false;
#endif
static uint16_t enc(float v)
{
    if(std::isnan(v)) return 0x7e00;
#if defined(__AVX__) && defined(__F16C__)
    // nearest even, done on the real line: count units in the last place
    uint16_t s=std::signbit(v)?0x8000:0; double a=std::fabs((double)v); if(std::isinf(a)) return s|0x7c00; if(a==0) return s;
    int e; std::frexp(a,&e); e--; if(e<-14) e=-14; double q=std::nearbyint(std::ldexp(a,10-e)); double r=std::ldexp(q,e-10); if(r>65504) return s|0x7c00; return s|(uint16_t)ref::encode_float(H,ref::from_double(r));
#else
    return (uint16_t)ref::encode_float(H,ref::from_float(v));
#endif
}
static float dec(uint16_t h) { ref::Num x=ref::decode_float(H,h); if(x.k==ref::NAN_) return NAN; if(x.k==ref::INF) return x.neg?-INFINITY:INFINITY; float f=ref::to_float(x); return HARD&&x.k==ref::ZERO&&(h&0x8000)?-0.0f:f; } // the software conversion has an unsigned zero
using X=float16n32; static X mk(uint16_t h) { return X(false,h); }
static Rec *K;
static void r(const char*o,uint64_t a,uint64_t b,uint64_t c,X g,float e,bool nt,float e2) { K->begin(o,a,b,c); uint16_t x=enc(e), y=enc(e2); K->ck(fsame(H,g.raw(),x)||fsame(H,g.raw(),y),hx(x),hx(g.raw()),nt); }
static void r(const char*o,uint64_t a,uint64_t b,X g,float e,bool nt) { r(o,a,b,0,g,e,nt,e); }
static void pair(uint16_t a,uint16_t b)
{
    float u=dec(a), v=dec(b); X p=mk(a), q=mk(b); bool nt=std::isfinite(u)&&std::isfinite(v)&&u!=0&&v!=0; Rec&k=*K;
    r("add",a,b,p+q,u+v,nt); r("sub",a,b,p-q,u-v,nt); r("mul",a,b,p*q,u*v,nt); r("div",a,b,p/q,u/v,nt); r("rem",a,b,rem(p,q),(float)std::remainder(u,v),nt);
    X z=p; z+=q; r("add_assign",a,b,z,u+v,nt); z=p; z*=q; r("mul_assign",a,b,z,u*v,nt);
    { X y=p+p, w=p*p; z=p; k.begin("self_assign",a); bool ok=&(z+=z)==&z&&z.raw()==y.raw(); z=p; ok=ok&&&(z*=z)==&z&&z.raw()==w.raw(); k.ck(ok,"x+=x is x+x, x*=x is x*x","-",nt); }
    k.begin("compare",a,b); k.ck((p<q)==(u<v)&&(p<=q)==(u<=v)&&(p>q)==(u>v)&&(p>=q)==(u>=v)&&(p==q)==(u==v),mon::fmt("order of %g and %g",u,v),"-",nt);
    float s=u+v; mon::klass(std::isnan(s)?"nan":std::isinf(s)?"inf":std::fabs(s)>65504?"overflow":std::fabs(s)<6.2e-5?"subnormal":"normal");
}
int main(int c,char**v)
{
    mon::init(c,v); int w=c>1?atoi(v[1]):0; 
#if defined(__AVX__) && defined(__F16C__)
    Rec k("float16n32/hardware");
#else
    Rec k("float16n32/software");
#endif
    K=&k; mon::Rng g(mon::hash3(mon::seed(),k.hc,100+w)); BGen bh(H,g.next()), bf(ref::FF{8,23,true},g.next());
    mon::klass(k.cfg);
    if(w==0)
    {
        for(uint32_t a=0;a<65536;a++)
        {
            if(mon::divisor()>100&&mon::thin()) continue;
            float u=dec(a); X p=mk(a); bool nt=std::isfinite(u)&&u!=0; k.begin("to_float",a); float f=(float)p; double d=(double)p; uint32_t fb,ub; memcpy(&fb,&f,4); memcpy(&ub,&u,4); k.ck(std::isnan(u)?std::isnan(f)&&std::isnan(d):(fb==ub||(u==0&&f==0))&&d==(double)u,mon::fmt("%g",u),mon::fmt("%g",f),nt);
            r("from_float",a,0,X(u),u,nt); k.begin("raw",a); k.ck(p.raw()==a&&p.operator float16n_t().what==a&&X(float16n_t((uint16_t)a)).raw()==a,hx(a),hx(p.raw()),nt); k.begin("neg",a); k.ck((-p).raw()==(a^0x8000)&&p.neg().raw()==(a^0x8000),hx(a^0x8000),hx((-p).raw()),nt); k.begin("abs",a); k.ck(p.abs().raw()==(a&0x7fff)&&std::abs(p).raw()==(a&0x7fff),hx(a&0x7fff),hx(p.abs().raw()),nt);
            r("half",a,0,half(p),u/2,nt); r("square",a,0,square(p),u*u,nt); r("inv",a,0,inv(p),1/u,nt); r("sqrt",a,0,sqrt(p),std::sqrt(u),nt);
            k.begin("print",a); std::ostringstream o,e; o<<p; e<<"f16("<<f<<")"; k.ck(o.str()==e.str(),e.str(),o.str(),nt);
        }
        r("zero",0,0,X::zero(),0,false); r("default",0,0,X(),0,false); r("one",0,0,X::one(),1,true); r("two",0,0,X::two(),2,true);
    }
    // singles around every half value and its midpoints
    for(long i=0,n=mon::scale(400000,6000000);i<n;i++) { float f; uint32_t b=(uint32_t)bf.pick(); memcpy(&f,&b,4); switch(g.below(4)) { case 0: f=dec(bh.pick()); break; case 1: { uint16_t h=(uint16_t)(g.next()&0xffff); float x=dec(h), y=dec(h+1); f=(x+y)/2; break; } case 2: { uint16_t h=(uint16_t)(g.next()&0xffff); f=(dec(h)+dec(h+1))/2; f=std::nextafterf(f,g.below(2)?INFINITY:-INFINITY); break; } default:; } memcpy(&b,&f,4); r("from_float",b,0,X(f),f,std::isfinite(f)); }
    for(long i=0,n=mon::scale(800000,20000000);i<n;i++) { uint16_t a=(uint16_t)bh.pick(), b=(uint16_t)bh.pick(); switch(g.below(5)) { case 0: b=(a^0x8000)+g.range(-3,3); break; case 1: b=(b&0x83ff)|((a&0x7c00)+(g.range(-12,12)*1024)&0x7c00); break; case 2: b=(uint16_t)g.next(); a=(uint16_t)g.next(); break; default:; } pair(a,b); if(i%4==0) { uint16_t d=(uint16_t)bh.pick(); float u=dec(a),v=dec(b),x=dec(d); r("mulAdd",a,b,d,mulAdd(mk(a),mk(b),mk(d)),u*v+x,true,std::fma(u,v,x)); } }
    return mon::finish();
}
