// posits backed by a native float
#include "positf.h"
#include "srcgen.hpp"
template <class FFT> struct Nat; 
template <> struct Nat<float> { static float to(const ref::Num&x) { return ref::to_float(x); } static ref::Num from(float f) { return ref::from_float(f); } static const char*n() { return "float"; } };
template <> struct Nat<double> { static double to(const ref::Num&x) { return ref::to_double(x); } static ref::Num from(double f) { return ref::from_double(f); } static const char*n() { return "double"; } };
template <class X,class P,class FFT> void go()
{
    static std::string nm=std::string("PositF/")+Nat<FFT>::n()+"/"+Traits<P>::name(); using U=typename X::UnpackedT; using L=std::numeric_limits<X>;
    Ck<P> k; k.cfg=nm.c_str(); k.hc=mon::hstr(k.cfg); auto f=k.f; Gen g(f,mon::hash3(mon::seed(),k.hc,1)); DGen s(g); const int64_t mx=ref::MAXPOS(f), lo=-mx; mon::klass(nm);
    auto mk=[&](int64_t v){ return X(typename X::DeepInit(),(typename X::value_t)v); };
    auto nat=[&](const ref::Num&x,FFT&d)->bool{ if(x.k==ref::NAN_) { d=NAN; return true; } if(x.k==ref::INF) { d=x.neg?-INFINITY:INFINITY; return true; } if(x.k==ref::ZERO) { d=0; return true; } d=Nat<FFT>::to(x); return ref::cmp(Nat<FFT>::from(d),x)==0; };
    auto back=[&](volatile FFT d){ return ref::trunc(f,Nat<FFT>::from(d)); };
    auto backd=[&](volatile double d){ return ref::trunc(f,ref::from_double(d)); };
    ref::Num n1=ref::from_i64(1);
    g.unary(mon::scale(8000,200000),[&](int64_t a){
        ref::Num x=ref::decode(f,a); X p=mk(a); bool nt=x.k==ref::FIN, fin=a>=lo&&a<=mx; FFT u; bool ex=nat(x,u);
        auto chkd=[&](const char*o,double d,double e){ k.begin(o,a); bool good= x.k==ref::NAN_?std::isnan(d):x.k==ref::INF?std::isinf(d)&&(f.spec==ref::WithInf||std::signbit(d)==x.neg):d==e; k.ok(good,mon::fmt("%a",e).c_str(),nt); };
        chkd("to_float",(float)p,ref::to_float(x)); chkd("to_double",(double)p,ref::to_double(x)); k.begin("to_int",a); k.eq((int)p,ref::to_fixed(x,32,0),nt);
        k.begin("unpack_pack",a); k.eq(X(p.unpack()).v,a,nt); k.eq(X(p.unpack_low()).v,a,nt); { U w=p; k.eq(X(w).v,a,nt); } k.eq(X::pack_posit(X::unpack_posit(p)).v,a,nt); k.eq(X::pack_low(X::unpacked_full2low(X::unpacked_low2full(p.unpack_low()))).v,a,nt);
        if(ex) { k.begin("via_native",a); k.eq(X((FFT)p).v,a,nt); }
        k.begin("neg",a); k.eq((-p).v,a==ref::TOP(f)?a:-a,nt); k.eq(neg(p).v,a==ref::TOP(f)?a:-a,nt); k.begin("abs",a); k.eq(p.abs().v,a==ref::TOP(f)?a:a<0?-a:a,nt); k.eq(std::abs(p).v,a==ref::TOP(f)?a:a<0?-a:a,nt);
        k.begin("next",a); k.eq(p.next().v,!fin||a==mx?a:a+1,fin); k.begin("prev",a); k.eq(p.prev().v,!fin||a==lo?a:a-1,fin);
        auto o=[&](const char*n,bool got,bool exp){ k.begin(n,a); k.ok(got==exp,exp?"true":"false",nt); };
        o("isNaN",p.isNaN(),x.k==ref::NAN_); o("isinfinity",p.isinfinity(),x.k==ref::INF); o("iszero",p.iszero(),a==0); o("isone",p.isone(),x.k==ref::FIN&&!x.neg&&x.e==0&&(x.m<<1)==0); if(fin) o("isnegative",p.isnegative(),x.neg); o("hasNaN",p.hasNaN(),f.spec!=ref::WithInf);
        if(fin) { bool unit=a>=0&&ref::cmp(x,n1)<=0; o("isUnitRange",p.isUnitRange(),unit); if(f.es==0) { const int64_t h=((int64_t)1)<<(f.N-1); k.begin("pseudosigmoid",a); k.eq(p.pseudosigmoid().v,(a+h)>>2); k.begin("pseudosoftplus",a); k.eq(p.pseudosoftplus().v,(a+h)>>1); if(unit) { k.begin("urOneMinus",a); k.eq(p.urOneMinus().v,(h>>1)-a); FFT t; if(ex&&nat(ref::decode(f,(h>>1)-a),t)) { volatile FFT w=u; w=w*t; k.begin("urDeltaPs",a); k.eq(p.urDeltaPs().v,back(w)); } } } }
        { X z=p, y=p+p, w=p*p; k.begin("self_assign",a); bool sok=&(z+=z)==&z&&z.v==y.v; z=p; sok=sok&&&(z*=z)==&z&&z.v==w.v; k.ok(sok,"x+=x is x+x, x*=x is x*x",nt); }
        if(ex)
        {
            k.begin("inv",a); { volatile FFT q=1; q=q/u; int64_t e= x.k==ref::INF?0:back(q); k.eq(p.inv().v,e,nt); k.eq((~p).v,e,nt); k.eq(inv(p).v,e,nt); }
            k.begin("half",a); { int64_t e=backd(0.5*(double)u), e2=sizeof(FFT)==4?back((FFT)(0.5f*u)):e; int64_t got=p.half().v; k.eq(got,got==e2?e2:e,nt); } k.begin("twice",a); { int64_t e=back((FFT)(2*u)); k.eq(p.twice().v,e,nt); }
        }
        mon::klass(ex?"operand exact in the native type":"operand truncated in the native type");
    });
    g.binary(mon::scale(15000,300000),7,[&](int64_t a,int64_t b){
        ref::Num x=ref::decode(f,a), y=ref::decode(f,b); FFT u,v; bool ex=nat(x,u)&nat(y,v); X p=mk(a), q=mk(b); bool nt=x.k==ref::FIN&&y.k==ref::FIN;
        if(x.k==ref::NAN_||y.k==ref::NAN_) { k.begin("compare_nan",a,b); k.ok(!(p==q)&&(p!=q)&&!(p<q)&&!(p<=q)&&!(p>q)&&!(p>=q),"NaN is unordered"); }
        if(x.k!=ref::NAN_&&y.k!=ref::NAN_&&!(f.spec==ref::WithInf&&(x.k==ref::INF||y.k==ref::INF))) { int c=ref::cmp(x,y); k.begin("compare",a,b); k.ok((p==q)==(c==0)&&(p!=q)==(c!=0)&&(p<q)==(c<0)&&(p<=q)==(c<=0)&&(p>q)==(c>0)&&(p>=q)==(c>=0),"the order of the values",nt); k.begin("min",a,b); k.eq(std::min(p,q).v,c<=0?a:b,nt); k.begin("max",a,b); k.eq(std::max(p,q).v,c>=0?a:b,nt); }
        if(!ex) return;
        auto sp=[&](const ref::Num&r,int64_t e){ return nt?e:ref::trunc(f,r); }; // special operands follow the policy
        volatile FFT vu=u, vv=v, w;
        w=vu+vv; int64_t e=sp(ref::add(x,y),back(w)); k.begin("add",a,b); k.eq((p+q).v,e,nt); k.begin("add_assign",a,b); { X z=p; z+=q; k.eq(z.v,e,nt); }
        w=vu-vv; k.begin("sub",a,b); k.eq((p-q).v,sp(ref::add(x,ref::neg(y)),back(w)),nt);
        w=vu*vv; e=sp(ref::mul(x,y),back(w)); k.begin("mul",a,b); k.eq((p*q).v,e,nt); k.begin("mul_assign",a,b); { X z=p; z*=q; k.eq(z.v,e,nt); }
        if(nt||true) { w=vu/vv; k.begin("div",a,b); k.eq((p/q).v,sp(ref::div(x,y),back(w)),nt); }
        if(nt) { int64_t c=g.related(a); ref::Num z=ref::decode(f,c); FFT t; if(z.k==ref::FIN&&nat(z,t)) { volatile FFT vt=t; w=vu*vv; w=w+vt; int64_t e1=back(w), e2=back((FFT)std::fma((FFT)u,(FFT)v,(FFT)t)); k.begin("fma",a,b,c); int64_t got=fma(p,q,mk(c)).v; k.eq(got,got==e2?e2:e1); } }
    });
    auto D=[&](double d){ ref::Num x=ref::from_double(d); k.begin("from_double",(int64_t)b_of(d)); k.eq(X(d).v,ref::trunc(f,x),x.k==ref::FIN); };
    auto F=[&](float d){ ref::Num x=ref::from_float(d); k.begin("from_float",b_off(d)); k.eq(X(d).v,ref::trunc(f,x),x.k==ref::FIN); };
    auto I=[&](int i){ k.begin("from_int",i); k.eq(X(i).v,ref::trunc(f,ref::from_i64(i)),i!=0); };
    for(double d: s.specials()) { D(d); F((float)d); } for(int i: {0,1,-1,2,3,7,100,2147483647,-2147483647-1,-2147483647}) I(i);
    for(long i=0,n=mon::scale(8000,200000);i<n;i++) { D(s.pick()); F(s.pickf()); I(s.picki()); }
    auto c=[&](const char*n,int64_t got,int64_t exp){ k.begin(n,0); k.eq(got,exp); };
    auto num=[&](double d){ return ref::trunc(f,ref::from_double(d)); };
    c("zero",X::zero().v,0); c("one",X::one().v,num(1)); c("mone",X::mone().v,num(-1)); if(!(f.N==3&&f.spec==ref::WithNanInf)) c("two",X::two().v,num(2)); c("onehalf",X::onehalf().v,num(0.5)); c("max",X::max().v,mx); c("min",X::min().v,1); c("lowest",X::lowest().v,lo);
    c("nan",X::nan().v,ref::TOP(f)); c("inf",X::inf().v,ref::PINF(f)); c("pinf",X::pinf().v,ref::PINF(f)); c("ninf",X::ninf().v,ref::NINF(f)); c("infinity",X::infinity().v,ref::PINF(f)); c("default",X().v,0);
    c("L::min",L::min().v,1); c("L::max",L::max().v,mx); c("L::lowest",L::lowest().v,lo); c("L::denorm_min",L::denorm_min().v,1); c("L::infinity",L::infinity().v,ref::PINF(f)); c("L::quiet_NaN",L::quiet_NaN().v,ref::TOP(f)); c("L::has_infinity",L::has_infinity,f.spec!=ref::WithNan); c("L::has_quiet_NaN",L::has_quiet_NaN,f.spec!=ref::WithInf); c("L::is_signed",L::is_signed,1); c("L::is_integer",L::is_integer,0); c("L::is_exact",L::is_exact,0); c("L::radix",L::radix,2); c("L::is_specialized",L::is_specialized,1); c("L::has_signaling_NaN",L::has_signaling_NaN,0); c("L::max_exponent",L::max_exponent,(long)ref::decode(f,mx).e); c("L::min_exponent",L::min_exponent,(long)ref::decode(f,1).e);
    if(f.N>3) { int64_t one=num(1); FFT t; if(one+1<=mx&&nat(ref::decode(f,one+1),t)) { ref::Num d=ref::add(ref::decode(f,one+1),ref::decode(f,-one)); c("L::epsilon",L::epsilon().v,ref::trunc(f,d)); } }
}
template <bool OK> struct Fl { template <class X,class P> static void run() { go<X,P,float>(); } }; template <> struct Fl<false> { template <class X,class P> static void run() {} };
#define RUNF_(T,N,ES,FT,S) { using P=Posit<T,N,ES,FT,PositSpec::S>; Fl<(N<=32)>::run<PositF<T,N,ES,float,PositSpec::S>,P>(); go<PositF<T,N,ES,double,PositSpec::S>,P,double>(); }
int main(int c,char**v) { mon::init(c,v); CONFIGS(RUNF_) return mon::finish(); }
