// values as objects: copies, moves, containers, atomics, neighbours in memory, aliased operands, deferred products
#include "posit8.hpp"
#include "posit10.hpp"
#include "posit12.hpp"
#include "positf.h"
#include "anyfloat.hpp"
#include "float16native32.hpp"
#include "pw.hpp"
#include <vector>
#include <array>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <atomic>
#include <functional>
#include <algorithm>
#include <numeric>
#include <utility>
#include <new>
template <class P> constexpr int wid() { return sizeof(P)<8?8*(int)sizeof(P):64; }
template <class P> int64_t raw(const P&p) { int64_t r=0; memcpy(&r,&p,wid<P>()/8); return (int64_t)((uint64_t)r<<(64-wid<P>()))>>(64-wid<P>()); }
template <class P> P from(int64_t v) { P p; memcpy((void*)&p,&v,wid<P>()/8); return p; }
// a result: every NaN is one value
template <class P> int64_t res(const P&p) { float f=(float)p; return f!=f?INT64_MIN:raw(p); }
template <class P> P mul(const P&a,const P&b) { P r=a*b; return r; }
template <class P,class M> P conv(const M&m) { P r=m; return r; }
template <class P> struct Box { char c; P p; char d; P q; unsigned char e; };
struct Obj
{
    const char*cfg; uint64_t hc; Obj(const char*n):cfg(n),hc(mon::hstr(n)){ mon::klass(n); } const char*what=""; int64_t a=0,b=0;
    void begin(const char*w,int64_t x,int64_t y=0) { what=w; a=x; b=y; mon::cur=mon::Cur{cfg,w,x,y,0}; }
    void eq(int64_t got,int64_t want,const char*d="") { mon::seen(mon::hash3(hc^mon::mix(a),b,mon::hstr(what)+mon::hstr(d)),a!=0); if(got!=want) mon::violation(std::string(cfg)+"|"+what,mon::fmt("%s|%s|%lld|%lld",cfg,what,(long long)a,(long long)b),mon::fmt("%s: expected %lld got %lld",d,(long long)want,(long long)got)); if(mon::want_sample()) mon::sample(mon::fmt("%s %s %lld %lld",cfg,what,(long long)a,(long long)b)); }
};
template <class P> P pass(P x) { return x; }
template <class P> P chain(const P&x) { P y(x); P z=std::move(y); return z; }
template <class P> auto products(Obj&o,const P&a,const P&b,int) -> decltype(P::UnpackedT(),void())
{
    // a product that is not yet converted (with deferred products) keeps the operands it was made from
    P p=a,q=b; const P want=mul(p,q); auto m=p*q; p=b; q=P(); o.eq(res(conv<P>(m)),res(want),"product, then the operands are overwritten"); auto n=m; o.eq(res(conv<P>(n)),res(want),"copy of a product");
    auto made=[](P x,P y){ return x*y; }; auto m2=made(a,b); volatile char wipe[256]; for(int i=0;i<256;i++) wipe[i]=(char)i; o.eq(res(conv<P>(m2)),res(want),"product returned by a function");
}
template <class P> void products(Obj&,const P&,const P&,long) {}
template <class P,bool=std::is_trivially_copyable<P>::value> struct Atom { static void go(Obj&o,int64_t x,int64_t y) { std::atomic<P> t(from<P>(x)); o.eq(raw(t.load()),x,"load"); P old=t.exchange(from<P>(y)); o.eq(raw(old),x,"exchange"); P e=from<P>(y); o.eq(t.compare_exchange_strong(e,from<P>(x)),1,"compare exchange of the same pattern"); e=from<P>(~x); o.eq(t.compare_exchange_strong(e,from<P>(y)),0,"compare exchange of another pattern"); o.eq(raw(e),x,"what compare exchange saw"); } };
template <class P> struct Atom<P,false> { static void go(Obj&,int64_t,int64_t) {} };
template <class P> auto slash(P&x,const P&y,int) -> decltype(x/=y,true) { x/=y; return true; }
template <class P> bool slash(P&,const P&,long) { return false; }
// the patterns of one type; ok(v): takes part in sorting
template <class P> void object(const char*name,const std::vector<int64_t>&pat,std::function<bool(int64_t)> sortable,mon::Rng&r)
{
    Obj o(name); const size_t K=pat.size(); auto any=[&]{ return pat[r.below(K)]; };
    for(int how=0;how<3;how++) { o.begin("default construction",how); alignas(P) unsigned char b[sizeof(P)*3]; memset(b,0x5a,sizeof b); void*w=b+sizeof(P); P*p=how==0?new(w) P:how==1?new(w) P():new(w) P{}; o.eq(raw(*p),0,"zero"); int64_t side=0; for(size_t i=0;i<sizeof(P);i++) side+=(b[i]!=0x5a)+(b[2*sizeof(P)+i]!=0x5a); o.eq(side,0,"bytes beside it"); }
    { o.begin("arrays of zeros",0); std::unique_ptr<P[]> h(new P[64]); std::vector<P> v(64); static P s[8]; for(int i=0;i<64;i++) { o.eq(raw(h[i]),0,"new[]"); o.eq(raw(v[i]),0,"vector"); o.eq(raw(s[i%8]),0,"static"); } v.resize(100); o.eq(raw(v[99]),0,"resize"); }
    for(size_t k=0;k<K;k++)
    {
        const int64_t x=pat[k], y=any(); const P p=from<P>(x);
        o.begin("copies",x,y); o.eq(raw(P(p)),x,"copy"); P c=p; o.eq(raw(c),x,"copy"); P d=std::move(c); o.eq(raw(d),x,"move"); P e=from<P>(y); P&ref=(e=d); o.eq(raw(e),x,"assignment"); o.eq(&ref==&e,1,"assignment returns its left side"); e=*&e; o.eq(raw(e),x,"self assignment"); P f; P g; f=g=e; o.eq(raw(f),x,"chained"); o.eq(raw(g),x,"chained"); f=std::move(g); o.eq(raw(f),x,"move assignment"); o.eq(raw(pass(f)),x,"argument"); o.eq(raw(chain(f)),x,"chain"); o.eq(raw(e),x,"source of copies");
        P s1=from<P>(x),s2=from<P>(y); std::swap(s1,s2); o.eq(raw(s1),y,"swap"); o.eq(raw(s2),x,"swap"); try { throw p; } catch(const P&z) { o.eq(raw(z),x,"exception"); } std::pair<P,P> pr(p,s1); std::array<P,3> ar{{s1,p,s1}}; auto a2=ar; o.eq(raw(pr.first),x,"pair"); o.eq(raw(a2[1]),x,"array"); auto l=[p]{ return p; }; std::function<P()> fn=l; o.eq(raw(fn()),x,"capture");
        o.begin("bytes",x,y); { unsigned char b[sizeof(P)]; P t[3]={from<P>(y),p,from<P>(y)}; memcpy(b,&t[1],sizeof(P)); int64_t z=0; memcpy(&z,b,sizeof(P)); o.eq(raw(from<P>(z)),x,"bytes out and in"); o.eq((int64_t)((char*)&t[2]-(char*)&t[1]),sizeof(P),"stride"); o.eq(memcmp(&t[0],&t[2],sizeof(P)),0,"equal patterns are equal bytes"); }
        Atom<P>::go(o,x,y);
        // an operation writes its own element only
        o.begin("neighbours",x,y); { P t[5]; for(auto&z:t) z=from<P>(y); t[2]=p; const P q=from<P>(any()); P w=p; w+=q; t[2]+=q; o.eq(res(t[2]),res(w),"+="); t[2]=p; w=mul(p,q); t[2]*=q; o.eq(res(t[2]),res(w),"*="); t[2]=p; if(slash(t[2],q,0)) o.eq(res(t[2]),res(P(p/q)),"/="); for(int i:{0,1,3,4}) o.eq(raw(t[i]),y,"element beside it");
            Box<P> bx; memset((void*)&bx,0x33,sizeof bx); bx.p=p; bx.q=from<P>(y); bx.p*=bx.q; bx.q+=bx.q; o.eq(bx.c==0x33&&bx.d==0x33&&bx.e==0x33,1,"members beside it"); }
        o.begin("aliases",x,y); { P w=p; w+=w; o.eq(res(w),res(P(p+p)),"a+=a"); w=p; w*=w; o.eq(res(w),res(mul(p,p)),"a*=a"); w=p; if(slash(w,w,0)) o.eq(res(w),res(P(p/p)),"a/=a"); P q=from<P>(y); const P sum=P(p+q),dif=P(p-q),quo=P(p/q); w=p; w=P(w+q); o.eq(res(w),res(sum),"a=a+b"); w=q; w=P(p-w); o.eq(res(w),res(dif),"b=a-b"); w=p; w=P(w/q); o.eq(res(w),res(quo),"a=a/b"); w=p; P&back=(w+=q); o.eq(&back==&w,1,"+= returns its left side"); P&ba2=(w*=q); o.eq(&ba2==&w,1,"*= returns its left side"); w=p; (w+=q)+=q; P u=P(p+q); u=P(u+q); o.eq(res(w),res(u),"(a+=b)+=b"); o.eq(raw(q),y,"right side"); }
        o.begin("product",x,y); products(o,p,from<P>(y),0);
    }
    for(int round=0;round<mon::scale(4,30);round++)
    {
        const size_t n=round==0?1:1+r.below(200); std::vector<int64_t> m; std::vector<P> v; std::deque<P> dq; for(size_t i=0;i<n;i++) { int64_t x=any(); m.push_back(x); v.push_back(from<P>(x)); dq.push_front(from<P>(x)); }
        o.begin("containers",round,n); auto same=[&](const char*w){ o.eq((int64_t)v.size(),(int64_t)m.size(),w); for(size_t i=0;i<m.size()&&i<v.size();i++) o.eq(raw(v[i]),m[i],w); }; same("growth"); for(size_t i=0;i<n;i++) o.eq(raw(dq[i]),m[n-1-i],"deque");
        for(int i=0;i<10;i++) { size_t at=r.below(m.size()+1); int64_t x=any(); if(r.below(2)||m.size()<2) { m.insert(m.begin()+at,x); v.insert(v.begin()+at,from<P>(x)); } else { at=r.below(m.size()); m.erase(m.begin()+at); v.erase(v.begin()+at); } } same("insert and erase");
        { std::vector<P> w=v; w.swap(v); v.assign(w.begin(),w.end()); same("assign"); std::reverse(v.begin(),v.end()); std::reverse(m.begin(),m.end()); same("reverse"); size_t k=r.below(m.size()); std::rotate(v.begin(),v.begin()+k,v.end()); std::rotate(m.begin(),m.begin()+k,m.end()); same("rotate"); }
        // sorting by < keeps the multiset of patterns; sets and maps find what was put in
        std::vector<P> s; std::vector<int64_t> t; for(size_t i=0;i<m.size();i++) if(sortable(m[i])) { s.push_back(v[i]); t.push_back(m[i]); }
        o.begin("sorting",round,n); auto less=[](const P&x,const P&y){ return (bool)(x<y); }; std::vector<P> s2=s; std::sort(s.begin(),s.end(),less); std::stable_sort(s2.begin(),s2.end(),less); for(size_t i=1;i<s.size();i++) { o.eq((bool)(s[i]<s[i-1]),0,"ascending"); o.eq((bool)(s2[i]<s2[i-1]),0,"ascending"); } { std::vector<int64_t> u,u2; for(auto&z:s) u.push_back(raw(z)); for(auto&z:s2) u2.push_back(raw(z)); std::sort(u.begin(),u.end()); std::sort(u2.begin(),u2.end()); std::vector<int64_t> tt=t; std::sort(tt.begin(),tt.end()); o.eq(u==tt,1,"multiset after sort"); o.eq(u2==tt,1,"multiset after stable_sort"); }
        std::map<P,int64_t,bool(*)(const P&,const P&)> mp(+[](const P&x,const P&y){ return (bool)(x<y); }); for(size_t i=0;i<t.size();i++) mp[from<P>(t[i])]=t[i]; for(size_t i=0;i<t.size();i++) { auto it=mp.find(from<P>(t[i])); o.eq(it!=mp.end(),1,"found in the map"); if(it!=mp.end()) o.eq((bool)(it->first==from<P>(t[i])),1,"key of the map"); }
    }
}
template <class P> void workload()
{
    ref::PF f=Traits<P>::pf(); Gen g(f,salt<P>("objects")); std::vector<int64_t> v={0,ref::TOP(f),ref::MAXPOS(f)}; if(f.N<=8) for(int64_t x=g.top;x<=-(g.top+1);x++) v.push_back(x); else for(long i=0;i<mon::scale(120,2000);i++) v.push_back(g.pick());
    object<P>(Traits<P>::name().c_str(),v,[=](int64_t x){ return x!=ref::TOP(f); },g.r);
}
template <class P> void other(const char*n,int bits,std::function<bool(int64_t)> s) { mon::Rng r(mon::hash3(mon::seed(),mon::hstr(n),28)); std::vector<int64_t> v={0,INT64_MIN>>(64-bits)}; if(bits<=8) for(int i=-(1<<(bits-1));i<(1<<(bits-1));i++) v.push_back(i); else for(long i=0;i<mon::scale(300,4000);i++) v.push_back((int64_t)(r.next()<<(64-bits))>>(64-bits)); object<P>(n,v,s,r); }
int main(int c,char**av)
{
    mon::init(c,av); CONFIGS(RUNCFG_)
    if(c>1&&atoi(av[1])==1)
    {
        auto nar=[](int bits){ return [bits](int64_t x){ return x!=INT64_MIN>>(64-bits); }; }; auto ieee=[](int64_t ex){ return [ex](int64_t x){ return (x&ex)!=ex; }; };
        other<posit8>("posit8",8,nar(8)); other<posit10>("posit10",10,nar(10)); other<posit12>("posit12",12,nar(12)); other<PositF<int16_t,16,1,float,PositSpec::WithNan>>("PositF<16,1,float>",16,nar(16)); other<PositF<int32_t,32,2,double,PositSpec::WithNanInf>>("PositF<32,2,double>",32,nar(32));
        other<anyfloat_emu<5,10,halffloat,uint16_t,float>>("emu<5,10>",16,ieee(0x7c00)); other<anyfloat_emu<5,2,microfloat,uint8_t,float>>("emu<5,2>",8,ieee(0x7c)); other<float16n32>("float16n32",16,ieee(0x7c00));
    }
    return mon::finish();
}
