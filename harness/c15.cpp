// emulated floating point formats and the tabulated 8 bit float
#include "binary8.hpp"
#include "anyfloat.hpp"
#include "fw.hpp"
#include <sstream>
static float tof(const ref::Num&x) { if(x.k==ref::NAN_) return NAN; if(x.k==ref::INF) return x.neg?-INFINITY:INFINITY; return ref::to_float(x); }
static double tod(const ref::Num&x) { if(x.k==ref::NAN_) return NAN; if(x.k==ref::INF) return x.neg?-INFINITY:INFINITY; return ref::to_double(x); }
template <class F> F native(const ref::Num&x); template <> float native<float>(const ref::Num&x) { return tof(x); } template <> double native<double>(const ref::Num&x) { return tod(x); }
static ref::Num num(float f) { return ref::from_float(f); } static ref::Num num(double f) { return ref::from_double(f); }
// same value (NaN payloads, the sign of zero and unsupported subnormals are not significant)
static bool vsame(const ref::FF&f,uint64_t a,uint64_t b) { ref::Num x=ref::decode_float(f,a), y=ref::decode_float(f,b); return x.k==y.k&&(x.k==ref::ZERO||x.k==ref::NAN_||(x.neg==y.neg&&(x.k==ref::INF||(x.e==y.e&&x.m==y.m)))); }
template <int E,int F,class V,class H,class I> anyfloat_emu<E,F,V,H,I,true> stdabs(anyfloat_emu<E,F,V,H,I,true> p) { return std::abs(p); } template <int E,int F,class V,class H,class I> anyfloat_emu<E,F,V,H,I,false> stdabs(anyfloat_emu<E,F,V,H,I,false> p) { return p.abs(); }
template <class X,class FFT,int EB,int FRB,bool DN> struct Emu
{
    ref::FF f{EB,FRB,DN}; Rec k; explicit Emu(const char*n):k(n){}
    static constexpr int W=1+EB+FRB, HB=sizeof(decltype(X().v))*8;
    static X mk(uint64_t b) { return X(typename X::DeepInit(),(decltype(X().v))b); }
    void r(const char*o,uint64_t a,uint64_t b,const X&got,const ref::Num&e,bool nt=true) { k.begin(o,a,b); uint64_t ex=ref::encode_float(f,e), g=(uint64_t)got.v; k.ck(vsame(f,g,ex)&&(W==HB||(g>>W)==0),hx(ex),hx(g),nt); }
    void pair(uint64_t a,uint64_t b)
    {
        ref::Num x=ref::decode_float(f,a), y=ref::decode_float(f,b); X p=mk(a), q=mk(b); FFT u=native<FFT>(x), v=native<FFT>(y); bool nt=x.k==ref::FIN&&y.k==ref::FIN;
        r("add",a,b,p+q,num(u+v),nt); r("sub",a,b,p-q,num(u-v),nt); r("mul",a,b,p*q,num(u*v),nt); r("div",a,b,p/q,num(u/v),nt);
        { X z=p; z+=q; r("add_assign",a,b,z,num(u+v),nt); z=p; z*=q; r("mul_assign",a,b,z,num(u*v),nt); }
        k.begin("compare",a,b); k.ck((p<q)==(u<v)&&(p<=q)==(u<=v)&&(p>q)==(u>v)&&(p>=q)==(u>=v)&&(p==q)==(u==v)&&(p!=q)==(u!=v),mon::fmt("order of %g and %g",(double)u,(double)v),"-",nt);
        if(x.k!=ref::NAN_&&y.k!=ref::NAN_) { k.begin("minmax",a,b); k.ck((FFT)std::min(p,q)==std::min(u,v)&&(FFT)std::max(p,q)==std::max(u,v),"min and max","-",nt); }
        k.begin("inputs",a,b); k.ck((uint64_t)p.v==a&&(uint64_t)q.v==b,"operands unchanged","changed",nt);
        mon::klass(x.k==ref::FIN&&y.k==ref::FIN?(std::isinf(u+v)?"native overflow":"finite pair"):"special operand");
    }
    void fma3(uint64_t a,uint64_t b,uint64_t c) { FFT u=native<FFT>(ref::decode_float(f,a)), v=native<FFT>(ref::decode_float(f,b)), w=native<FFT>(ref::decode_float(f,c)); X g=fma(mk(a),mk(b),mk(c)); k.begin("fma",a,b,c); uint64_t e1=ref::encode_float(f,num(u*v+w)), e2=ref::encode_float(f,num(std::fma(u,v,w))); k.ck(vsame(f,(uint64_t)g.v,e1)||vsame(f,(uint64_t)g.v,e2),hx(e1)+" or "+hx(e2),hx(g.v)); }
    void one(uint64_t a)
    {
        ref::Num x=ref::decode_float(f,a); X p=mk(a); FFT u=native<FFT>(x); bool nt=x.k==ref::FIN; uint64_t sb=((uint64_t)1)<<(W-1);
        { X h=p.half(); ref::Num e=num(0.5*(double)u); if(!vsame(f,(uint64_t)h.v,ref::encode_float(f,e))) e=num((FFT)0.5*u); r("half",a,0,h,e,nt); } r("twice",a,0,p.twice(),num(2*u),nt); r("inv",a,0,p.inv(),num(1/u),nt);
        k.begin("neg",a); k.ck((uint64_t)(-p).v==(a^sb)&&(uint64_t)p.neg().v==(a^sb),hx(a^sb),hx((-p).v),nt); k.begin("abs",a); k.ck((uint64_t)p.abs().v==(a&~sb)&&(uint64_t)stdabs(p).v==(a&~sb),hx(a&~sb),hx(p.abs().v),nt); r("inv_op",a,0,~p,num(1/u),nt); { const X&cp=p; typename X::UnpackedT w=cp; r("to_unpacked",a,0,X(w),x,nt); } k.begin("hasNaN",a); k.ck(p.hasNaN(),"true","false",nt); if(x.k!=ref::ZERO||a==0) { k.begin("iszero",a); k.ck(p.iszero()==(x.k==ref::ZERO&&a==0),"zero test","-",nt); } k.begin("isnegative",a); k.ck(p.isnegative()==((a&sb)!=0),"sign bit","-",nt);
        { X z=p, y=p+p, w=p*p; k.begin("self_assign",a); bool ok=&(z+=z)==&z&&z.v==y.v; z=p; ok=ok&&&(z*=z)==&z&&z.v==w.v; k.ck(ok,"x+=x is x+x, x*=x is x*x","-",nt); }
        k.begin("to_float",a); { const X&cp=p; float g=(float)cp; uint32_t gb; memcpy(&gb,&g,4); uint64_t e=ref::encode_float(ref::FF{8,23,true},x); k.ck(fsame(ref::FF{8,23,true},gb,e),hx(e),hx(gb),nt); }
        k.begin("to_double",a); { const X&cp=p; double g=(double)cp; uint64_t gb; memcpy(&gb,&g,8); uint64_t e=ref::encode_float(ref::FF{11,52,true},x); k.ck(fsame(ref::FF{11,52,true},gb,e),hx(e),hx(gb),nt); }
        k.begin("to_int",a); { int64_t e=ref::to_fixed(x,32,0); int g=(int)p; k.ck(g==e,hx(e),hx(g),nt); }
        r("unpack",a,0,X(p.unpack()),x,nt); { const X&cp=p; r("via_double",a,0,X((double)cp),x,nt); }
    }
    void src(mon::Rng&g)
    {
        BGen bd(ref::FF{11,52,true},g.next()), bf(ref::FF{8,23,true},g.next()), bs(f,g.next()); const long n=mon::scale(60000,1000000);
        for(long i=0;i<n;i++)
        {
            uint64_t b; if(g.below(2)) b=bd.pick(); else { double d=tod(ref::decode_float(f,bs.pick())); switch(g.below(3)) { case 0: d=std::nextafter(d,INFINITY); break; case 1: d=std::nextafter(d,-INFINITY); break; default: d*=1+(double)g.below(1000)/1000/(FRB>9?1000.0:(double)(1LL<<FRB)); } memcpy(&b,&d,8); }
            double d; memcpy(&d,&b,8); r("from_double",b,0,X(d),cut(num(d),HB)); uint32_t c=(uint32_t)bf.pick(); float s; if(g.below(2)) s=(float)d; else memcpy(&s,&c,4); memcpy(&c,&s,4); r("from_float",c,0,X(s),cut(num(s),HB));
            int v=(int)(int32_t)(uint32_t)g.next()>>g.below(32); r("from_int",(uint32_t)v,0,X(v),cut(ref::from_i64(v),HB));
        }
    }
    void go(long pairs)
    {
        mon::Rng g(mon::hash3(mon::seed(),k.hc,1)); BGen b1(f,g.next()), b2(f,g.next()), b3(f,g.next());
        b1.all(mon::scale(60000,1000000),[&](uint64_t a){ one(a); });
        if(W<=8) for(uint64_t a=0;a<(1u<<W);a++) for(uint64_t b=0;b<(1u<<W);b++) { if(mon::divisor()>100&&mon::thin()) continue; pair(a,b); }
        else { uint64_t em=(((uint64_t)1)<<EB)-1, fm=(((uint64_t)1)<<FRB)-1, sb=((uint64_t)1)<<(W-1); std::vector<uint64_t> sp; for(uint64_t e: {(uint64_t)0,(uint64_t)1,(em>>1)-1,em>>1,(em>>1)+1,em-1,em}) for(uint64_t fr: {(uint64_t)0,(uint64_t)1,fm/2+1,fm}) { sp.push_back((e<<FRB)|fr); sp.push_back(sb|(e<<FRB)|fr); } for(auto a:sp) for(auto b:sp) pair(a,b);
          for(long i=0;i<pairs;i++) { uint64_t a=b1.pick(), b=b2.pick(); switch(g.below(5)) { case 0: b=(a+g.below(5)-2)&(sb|(sb-1)); break; case 1: b=(a^sb)+g.below(5)-2; b&=sb|(sb-1); break; case 2: b=(b&(fm|sb))|((((a>>FRB)+g.below(2*FRB+6)-FRB-3)&em)<<FRB); break; default:; } pair(a,b); } }
        for(long i=0,n=mon::scale(40000,400000);i<n;i++) fma3(b1.pick(),b2.pick(),b3.pick());
        src(g);
        ref::Num o=ref::from_i64(1), inf; inf.k=ref::INF; ref::Num nan; nan.k=ref::NAN_; long bias=(1L<<(EB-1))-1; ref::Num mx=o; mx.e=bias; mx.m=(~(u128)0)<<(127-FRB);
        auto c=[&](const char*n,X v,const ref::Num&e){ r(n,0,0,v,e); mon::klass(n); };
        c("zero",X::zero(),ref::Num()); c("default",X(),ref::Num()); c("one",X::one(),o); c("two",X::two(),ref::shift(o,1)); c("inf",X::inf(),inf); c("pinf",X::pinf(),inf); c("infinity",X::infinity(),inf); c("ninf",X::ninf(),ref::neg(inf)); c("nan",X::nan(),nan); c("max",X::max(),mx); c("lowest",X::lowest(),ref::neg(mx)); c("min",X::min(),ref::shift(o,1-bias));
    }
};
static void tab()
{
    ref::FF f{5,2,true}; Rec k("binary8tab"); using X=binary8tab; auto mk=[](uint64_t a){ return X(X::DeepInit(),(int8_t)(uint8_t)a); };
    auto r=[&](const char*o,uint64_t a,uint64_t b,const X&g,const ref::Num&e,bool nt=true){ k.begin(o,a,b); uint64_t ex=ref::encode_float(f,e); k.ck(vsame(f,(uint8_t)g.v,ex),hx(ex),hx((uint8_t)g.v),nt); };
    for(uint64_t a=0;a<256;a++)
    {
        ref::Num x=ref::decode_float(f,a); float u=tof(x); X p=mk(a); bool nt=x.k==ref::FIN;
        k.begin("to_float",a); float g=(float)p; k.ck(x.k==ref::NAN_?std::isnan(g):g==u&&(nt||x.k==ref::ZERO?true:std::signbit(g)==x.neg),mon::fmt("%g",u),mon::fmt("%g",g),nt); k.begin("to_double",a); double gd=(double)p; k.ck(x.k==ref::NAN_?std::isnan(gd):gd==u,mon::fmt("%g",u),mon::fmt("%g",gd),nt); if(nt||x.k==ref::ZERO) { k.begin("to_int",a); k.ck((int)p==(int)u,mon::fmt("%d",(int)u),mon::fmt("%d",(int)p),nt); }
        r("inv",a,0,p.inv(),num(1/u),nt); r("inv_fn",a,0,inv(p),num(1/u),nt); r("half",a,0,p.half(),num(u/2),nt); r("half_fn",a,0,half(p),num(u/2),nt); r("twice",a,0,p.twice(),num(2*u),nt); r("twice_fn",a,0,twice(p),num(2*u),nt); r("square",a,0,p.square(),num(u*u),nt); r("square_fn",a,0,square(p),num(u*u),nt); r("neg",a,0,-p,ref::neg(x),nt); r("neg_fn",a,0,neg(p),ref::neg(x),nt); { ref::Num y=x; y.neg=false; r("abs",a,0,std::abs(p),y,nt); }
        if(x.k==ref::NAN_||x.k==ref::INF) r("exp2",a,0,p.exp2(),x.k==ref::INF?(x.neg?ref::Num():x):x,false);
        else { double e=exp2((double)u); ref::Num lo=num(e*(1-4e-7)), hi=num(e*(1+4e-7)); bool exact=u==std::floor(u); if(e>3.4e38) { ref::Num i; i.k=ref::INF; lo=hi=i; } else if(exact) lo=hi=ref::shift(ref::from_i64(1),(long)u); uint64_t el=ref::encode_float(f,lo), eh=ref::encode_float(f,hi), g8=(uint8_t)p.exp2().v; k.begin("exp2",a); k.ck(vsame(f,g8,el)||vsame(f,g8,eh),hx(el)+" or "+hx(eh),hx(g8),nt); k.begin("exp2_fn",a); k.ck((uint8_t)exp2(p).v==g8,hx(g8),"-",nt); }
        k.begin("is_negative",a); k.ck(p.is_negative()==(a>=128)&&is_negative(p)==(a>=128),"sign bit","-",nt);
        { X z=p, y=p+p, w=p*p; k.begin("self_assign",a); bool ok=&(z+=z)==&z&&z.v==y.v; z=p; ok=ok&&&(z*=z)==&z&&z.v==w.v; k.ck(ok,"x+=x is x+x, x*=x is x*x","-",nt); }
        k.begin("uu",a); k.ck(p.uu()==a,hx(a),hx(p.uu()),nt);
        for(uint64_t b=0;b<256;b++)
        {
            if(mon::divisor()>100&&mon::thin()) continue;
            ref::Num y=ref::decode_float(f,b); float v=tof(y); X q=mk(b); bool t2=nt&&y.k==ref::FIN;
            r("add",a,b,p+q,num(u+v),t2); r("sub",a,b,p-q,num(u-v),t2); r("mul",a,b,p*q,num(u*v),t2); r("div",a,b,p/q,num(u/v),t2); X z=p; z+=q; r("add_assign",a,b,z,num(u+v),t2); z=p; z*=q; r("mul_assign",a,b,z,num(u*v),t2);
            k.begin("compare",a,b); k.ck((p<q)==(u<v)&&(p<=q)==(u<=v)&&(p>q)==(u>v)&&(p>=q)==(u>=v)&&(p==q)==(u==v)&&(p!=q)==(u!=v),"numeric order","-",t2);
            if(x.k!=ref::NAN_&&y.k!=ref::NAN_) { k.begin("minmax",a,b); k.ck((float)std::min(p,q)==std::min(u,v)&&(float)std::max(p,q)==std::max(u,v),"min and max","-",t2); }
            mon::klass(t2?"finite pair":"special operand");
        }
    }
    ref::Num o=ref::from_i64(1); auto c=[&](const char*n,X v,const ref::Num&e){ r(n,0,0,v,e); };
    c("zero",X::zero(),ref::Num()); c("default",X(),ref::Num()); c("one",X::one(),o); c("afterone",X::afterone(),num(1.25f)); c("max",X::max(),num(57344.0f)); c("min",X::min(),ref::shift(o,-14)); using L=std::numeric_limits<X>; c("L::max",L::max(),num(57344.0f)); c("L::min",L::min(),ref::shift(o,-14)); c("L::epsilon",L::epsilon(),num(0.25f));
    mon::Rng g(mon::hash3(mon::seed(),k.hc,5)); BGen bd(ref::FF{11,52,true},g.next()), bf(ref::FF{8,23,true},g.next());
    for(long i=0,n=mon::scale(200000,2000000);i<n;i++) { uint64_t b=bd.pick(); double d; memcpy(&d,&b,8); if(g.below(2)) { d=tod(ref::decode_float(f,g.below(256)))*(1+((double)g.below(2001)-1000)/2000); memcpy(&b,&d,8); } r("from_double",b,0,X(d),num(d)); uint32_t s=(uint32_t)bf.pick(); float w; memcpy(&w,&s,4); r("from_float",s,0,X(w),num(w)); int v=(int)(int32_t)(uint32_t)g.next()>>g.below(32); r("from_int",(uint32_t)v,0,X(v),ref::from_i64(v)); }
}
using bfl=anyfloat_emu<8,7,halffloatalt,uint16_t,float,false>;
int main(int c,char**v)
{
    mon::init(c,v); const long n=mon::scale(400000,6000000);
    switch(c>1?atoi(v[1]):-1) {
    case 0: Emu<binary8_emu,float,5,2,true>("binary8_emu").go(n); tab(); break; case 1: Emu<binary16_emu,float,5,10,true>("binary16_emu").go(n); break; case 2: Emu<binary16alt_emu,float,8,7,true>("binary16alt_emu").go(n); break; case 3: Emu<binary32_emu,float,8,23,true>("binary32_emu").go(n); break; case 4: Emu<binary64_emu,double,11,52,true>("binary64_emu").go(n); break; case 5: Emu<bfl,float,8,7,false>("bfloat16_emu").go(n); break;
    case 6: Emu<anyfloat_emu<4,3,microfloat,uint8_t,float>,float,4,3,true>("emu<4,3>").go(n); Emu<anyfloat_emu<6,9,halffloat,uint16_t,double>,double,6,9,true>("emu<6,9,double>").go(n); break; case 7: Emu<anyfloat_emu<7,24,float,uint32_t,double>,double,7,24,true>("emu<7,24,u32,double>").go(n); Emu<anyfloat_emu<3,4,microfloat,uint8_t,float>,float,3,4,true>("emu<3,4>").go(n); break; }
    return mon::finish();
}
