// tabulated 8/10/12 bit posits: exhaustive
#include "posit8.hpp"
#include "posit10.hpp"
#include "posit12.hpp"
#include "srcgen.hpp"
#include <sstream>
template <class P,int N,int ES> struct Tab
{
    ref::PF f{N,ES,ref::WithNan}; const char*cfg; uint64_t hc; const char*op="";
    Tab(const char*n):cfg(n),hc(mon::hstr(n)){}
    static P mk(int64_t v) { return P(typename P::DeepInit(),(typename P::value_t)v); }
    void begin(const char*o,int64_t a,int64_t b=0) { op=o; mon::cur=mon::Cur{cfg,o,a,b,0}; }
    void rec(bool good,const std::string&e,const std::string&g) { if(good) return; auto&c=mon::cur; mon::violation(std::string(cfg)+"|"+op,mon::fmt("%s|%s|%lld|%lld",cfg,op,c.a,c.b),"expected "+e+" got "+g); }
    void count(bool nt) { auto&c=mon::cur; mon::seen(mon::hash3(hc^mon::mix(c.a),c.b,mon::hstr(op)),nt); }
    std::string ps(int64_t v) { return ref::canonical(f,v)?ref::pstr(f,v):mon::fmt("%lld(not a valid pattern)",(long long)v); }
    void eq(int64_t got,int64_t exp,bool nt=true) { count(nt); if(got!=exp) rec(false,ps(exp),ps(got)); if(mon::want_sample()) mon::sample(mon::fmt("%s %s a=%lld b=%lld -> %lld",cfg,op,mon::cur.a,mon::cur.b,(long long)got)); }
    void in(int64_t got,ref::Enc e,bool nt=true) { count(nt); if(got!=e.lo&&got!=e.hi) rec(false,ps(e.lo)+" or "+ps(e.hi),ps(got)); }
    void ok(bool g,const char*what,bool nt=true) { count(nt); if(!g) rec(false,what,"something else"); }
    void neg_fn(posit8 p,int64_t a,bool nt) { if(a!=-128) ok(is_negative(p)==(a<0),"sign test",nt); } void neg_fn(posit10 p,int64_t a,bool nt) { if(a!=-512) ok(is_negative(p)==(a<0),"sign test",nt); } template <class Q> void neg_fn(Q,int64_t,bool) {}
    void go(int part=0,int parts=1)
    {
        const int64_t top=ref::TOP(f), mx=-(top+1), one=((int64_t)1)<<(N-2);
        std::vector<ref::Num> dec; for(int64_t v=top;v<=mx;v++) dec.push_back(ref::decode(f,v));
        ref::Num n1=ref::from_i64(1);
        for(int64_t a=top+part;a<=mx;a+=parts)
        {
            const ref::Num&x=dec[a-top]; P p=mk(a); bool nt=x.k==ref::FIN;
            begin("inv",a); eq(p.inv().v, x.k==ref::ZERO?top:x.k==ref::NAN_?top:ref::trunc(f,ref::div(n1,x)),nt); begin("inv_fn",a); eq(inv(p).v,p.inv().v,nt);
            begin("half",a); eq(p.half().v,ref::trunc(f,ref::shift(x,-1)),nt); begin("half_fn",a); eq(half(p).v,p.half().v,nt);
            begin("twice",a); eq(p.twice().v,ref::trunc(f,ref::shift(x,1)),nt); begin("twice_fn",a); eq(twice(p).v,p.twice().v,nt);
            begin("square",a); eq(p.square().v,ref::trunc(f,ref::mul(x,x)),nt); begin("square_fn",a); eq(square(p).v,p.square().v,nt);
            begin("neg",a); eq((-p).v,a==top?a:-a,nt); begin("neg_fn",a); eq(neg(p).v,a==top?a:-a,nt);
            begin("abs",a); eq(std::abs(p).v,a==top?a:a<0?-a:a,nt);
            begin("to_float",a); { float d=(float)p; ok(x.k==ref::NAN_?std::isnan(d):d==ref::to_float(x)&&!(a==0&&std::signbit(d)),"the exact value as float",nt); }
            begin("to_double",a); { double d=(double)p; ok(x.k==ref::NAN_?std::isnan(d):d==ref::to_double(x),"the exact value as double",nt); }
            begin("to_int",a); eq((int)p,ref::to_fixed(x,32,0),nt);
            begin("to_template",a); { typename P::FPT q=p; eq(q.v,a,nt); eq(p.as_posit().v,a,nt); eq(P(q).v,a,nt); eq(P(p.unpack()).v,a,nt); eq(P(p.unpack_low()).v,a,nt); }
            begin("via_float",a); eq(P((float)p).v,a,nt); begin("via_double",a); eq(P((double)p).v,a,nt);
            begin("is_nan",a); ok(p.is_nan()==(a==top),"NaN test",nt); begin("is_infinity",a); ok(!p.is_infinity(),"no infinity",nt); if(a!=top) { begin("is_negative",a); ok(p.is_negative()==(a<0),"sign test",nt); }
            begin("has_neg_exponent",a); if(a>=0) ok(p.has_neg_exponent()==(a<one),"true exactly in [0,1)",nt); begin("is_negative_fn",a); neg_fn(p,a,nt);
            begin("analyze",a); { auto i=p.analyze(); if(nt) { auto q=ref::fields(f,a); ok(i.k==q.reg&&i.exp==q.exp&&i.fs==q.fs&&i.sign==(a<0)&&(long)i.exponent==x.e,"the decoded fields"); } else ok(i.nan==(a==top)&&!i.infinity,"special",false); }
            if(x.k==ref::NAN_) { begin("exp2",a); eq(p.exp2().v,top,false); }
            else { double d=ref::to_double(x); if(std::fabs(d)<=100) { begin("exp2",a); long double e=exp2l(d); int64_t l=ref::trunc(f,ref::from_double((double)(e*(1-4e-7L)))), h=ref::trunc(f,ref::from_double((double)(e*(1+4e-7L)))); if(d==std::floor(d)) l=h=ref::trunc(f,ref::shift(n1,(long)d)); int64_t g=p.exp2().v; count(nt); if(g<l||g>h) rec(false,ps(l)+".."+ps(h),ps(g)); begin("exp2_fn",a); eq(exp2(p).v,g,nt); } }
            begin("print",a); { std::ostringstream o; o<<p; ok(o.str()==mon::fmt("posit(%llu)",(unsigned long long)(a&((1<<N)-1))),"posit(<unsigned pattern>)",nt); }
            begin("self_assign",a); { P z=p, y=p+p; bool w=&(z+=z)==&z&&z.v==y.v; z=p; y=p*p; w=w&&&(z*=z)==&z&&z.v==y.v; z=p; P&zr=z; z=zr; ok(w&&z.v==a,"x+=x is x+x, x*=x is x*x",nt); }
            // pairs
            for(int64_t b=top;b<=mx;b++)
            {
                if((N>10||mon::divisor()>100)&&mon::thin()) continue;
                const ref::Num&y=dec[b-top]; P q=mk(b); bool t2=nt&&y.k==ref::FIN;
                begin("add",a,b); ref::Num s=ref::add(x,y); ref::Enc e=ref::encode(f,s); int64_t r=(p+q).v;
                // the exact sum is required whenever it fits a single precision number; posit12 adds in the posit encoding: exact for equal signs
                bool exact = s.k!=ref::FIN || (N<=8) || (N==12 ? x.neg==y.neg || e.lo==e.hi : ref::cmp(ref::from_float(ref::to_float(s)),s)==0 && !s.st);
                if(exact) eq(r,e.lo,t2); else in(r,e,t2);
                begin("add_assign",a,b); { P z=p; z+=q; eq(z.v,r,t2); }
                begin("sub",a,b); { s=ref::add(x,ref::neg(y)); e=ref::encode(f,s); int64_t w=(p-q).v; exact = s.k!=ref::FIN || (N<=8) || (N==12 ? x.neg!=y.neg || e.lo==e.hi : ref::cmp(ref::from_float(ref::to_float(s)),s)==0 && !s.st); if(exact) eq(w,e.lo,t2); else in(w,e,t2); }
                int64_t m=ref::trunc(f,ref::mul(x,y)); begin("mul",a,b); eq((p*q).v,m,t2); begin("mul_assign",a,b); { P z=p; z*=q; eq(z.v,m,t2); }
#ifdef POSITMUL
                begin("of_lazy_product",a,b); eq(P(p.as_posit()*q.as_posit()).v,m,t2);
#endif
                begin("div",a,b); eq((p/q).v,ref::trunc(f,ref::div(x,y)),t2);
                { const bool un=a==top||b==top; begin("compare",a,b); ok((p<q)==(!un&&a<b)&&(p<=q)==(!un&&a<=b)&&(p>q)==(!un&&a>b)&&(p>=q)==(!un&&a>=b)&&(p==q)==(!un&&a==b)&&(p!=q)==(un||a!=b),"numeric order, NaN unordered",t2); }
                if(a!=top&&b!=top) {
                  begin("minmax",a,b); ok(std::min(p,q).v==(a<b?a:b)&&std::max(p,q).v==(a>b?a:b),"min and max",t2); }
            }
        }
        if(part) return;
        // constants
        auto c=[&](const char*n,int64_t g,int64_t e){ begin(n,0); eq(g,e); mon::klass(std::string(cfg)+" "+n); };
        c("max",P::max().v,mx); c("min",P::min().v,1); c("one",P::one().v,one); c("afterone",P::afterone().v,one+1); c("onehalf",P::onehalf().v,ref::trunc(f,ref::shift(n1,-1))); c("nan",P::nan().v,top);
        c("pinfinity",P::pinfinity().v,top); c("ninfinity",P::ninfinity().v,top); c("default",P().v,0);
        using L=std::numeric_limits<P>; c("L::max",L::max().v,mx); c("L::min",L::min().v,1);
        { ref::Num d=ref::add(ref::decode(f,one+1),ref::neg(n1)); c("L::epsilon",L::epsilon().v,ref::trunc(f,d)); }
        // sources
        Gen g(f,mon::hash3(mon::seed(),hc,3)); DGen s(g);
        auto D=[&](double d){ ref::Num x=ref::from_double(d); begin("from_double",(int64_t)b_of(d)); eq(P(d).v,ref::trunc(f,x),x.k==ref::FIN); };
        auto F=[&](float d){ ref::Num x=ref::from_float(d); begin("from_float",(int64_t)b_off(d)); eq(P(d).v,ref::trunc(f,x),x.k==ref::FIN); };
        auto I=[&](int d){ ref::Num x=ref::from_i64(d); begin("from_int",d); eq(P(d).v,ref::trunc(f,x),x.k==ref::FIN); };
        for(double d: s.specials()) { D(d); F((float)d); } for(int i=-5000;i<=5000;i++) I(i); for(int i: {2147483647,-2147483647-1,-2147483647}) I(i);
        for(int64_t v=top+1;v<mx;v++) if(v&&v+1) { double a=ref::to_double(dec[v-top]), b=ref::to_double(dec[v+1-top]), m=a/2+b/2; for(double d:{a,b,m,std::nextafter(a,1e9),std::nextafter(a,-1e9),std::nextafter(m,1e9),std::nextafter(m,-1e9)}) { D(d); F((float)d); F(std::nextafterf((float)d,1e9f)); F(std::nextafterf((float)d,-1e9f)); } }
        for(long i=0,n=mon::scale(200000,3000000);i<n;i++) { D(s.pick()); F(s.pickf()); I(s.picki()); }
        mon::klass(cfg);
    }
};
static void c8extra() { }
int main(int c,char**v)
{
    mon::init(c,v); int w=c>1?atoi(v[1]):0;
    if(w==8) { Tab<posit8,8,0> t("posit8"); t.go(); t.begin("two",0); t.eq(posit8::two().v,96); t.begin("zero",0); t.eq(posit8::zero().v,0); }
    if(w==10) { Tab<posit10,10,2> t("posit10"); t.go(); t.begin("two",0); t.eq(posit10::two().v,288); t.begin("zero",0); t.eq(posit10::zero().v,0); }
    if(w==12) { Tab<posit12,12,2> t("posit12"); t.go(c>2?atoi(v[2]):0,c>2?6:1); }
    return mon::finish();
}
