// fused multiply-add, dot product, lazy product
#include "pw.hpp"
#include <list>
#include <deque>
#include <sstream>
#include <iterator>
#include <vector>
#include <memory>
// exact accumulator: fixed point, 2^-OFF resolution
struct Quire
{
    static const int W=160, OFF=64*W/2; uint64_t w[W]; // two's complement
    Quire() { memset(w,0,sizeof w); }
    void add(const ref::Num&x)
    {
        if(x.k!=ref::FIN) return; long lo=x.e-127+OFF; int sh=(int)(lo&63), i=(int)(lo>>6); uint64_t t[3]={(uint64_t)x.m<<sh, (uint64_t)(x.m>>64)<<sh|(sh?(uint64_t)x.m>>(64-sh):0), sh?(uint64_t)(x.m>>64)>>(64-sh):0};
        if(!x.neg) { unsigned __int128 c=0; for(int k=0;i+k<W;k++) { c+=(unsigned __int128)w[i+k]+(k<3?t[k]:0); w[i+k]=(uint64_t)c; c>>=64; } }
        else { uint64_t bor=0; for(int k=0;i+k<W;k++) { unsigned __int128 d=(unsigned __int128)w[i+k]-(k<3?t[k]:0)-bor; w[i+k]=(uint64_t)d; bor=(uint64_t)(d>>64)&1; } }
    }
    ref::Num get() const
    {
        ref::Num r; uint64_t v[W]; bool neg=w[W-1]>>63; uint64_t c=neg; for(int i=0;i<W;i++) { v[i]=neg?~w[i]:w[i]; if(c) { v[i]+=1; c=v[i]==0; } }
        int h=W-1; while(h>=0&&!v[h]) h--; if(h<0) return r; int lz=__builtin_clzll(v[h]); auto at=[&](int i){ return i>=0?v[i]:0ull; };
        uint64_t a=lz?(v[h]<<lz)|(at(h-1)>>(64-lz)):v[h], b=lz?(at(h-1)<<lz)|(at(h-2)>>(64-lz)):at(h-1); r.k=ref::FIN; r.neg=neg; r.m=((u128)a<<64)|b; r.e=(long)h*64+63-lz-OFF; r.st=lz?(at(h-2)<<lz)!=0:at(h-2)!=0; for(int i=h-3;i>=0;i--) if(v[i]) r.st=true; return r;
    }
};
static ref::Num p2(long e) { ref::Num x; x.k=ref::FIN; x.e=e; x.m=((u128)1)<<127; return x; }
template <class P> struct W
{
    Ck<P> k; ref::PF f=k.f; static constexpr int B=sizeof(typename Traits<P>::ft)*8; static constexpr bool wide=B>=2*Traits<P>::n;
    bool fin(const ref::Num&x) { return x.k==ref::FIN||x.k==ref::ZERO; }
    // exact value ex, computed with unit 2^u : the result lies between the encodings of ex-2^u and ex+2^u
    void near(int64_t got,const ref::Num&ex,long u)
    {
        ref::Num e=ex; e.st=false; ref::Enc a=ref::encode(f,ref::add(e,ref::neg(p2(u)))), b=ref::encode(f,ref::add(e,p2(u))); int64_t lo=std::min(std::min(a.lo,a.hi),std::min(b.lo,b.hi)), hi=std::max(std::max(a.lo,a.hi),std::max(b.lo,b.hi));
        k.ev(true); if(got<lo||got>hi) k.bad(k.ps(lo)+" .. "+k.ps(hi),k.ps(got));
    }
    ref::Num sum2(const ref::Num&x,const ref::Num&y) { Quire q; q.add(x); q.add(y); return q.get(); }
    // p and q: exact terms (finite); r: the observed sum
    void terms(const char*o,int64_t a,int64_t b,int64_t c,const ref::Num&p,const ref::Num&q,int64_t r)
    {
        k.begin(o,a,b,c); if(!fin(p)||!fin(q)) { ref::Num s=ref::add(p,q); k.eq(r,ref::trunc(f,s),false); mon::klass("special"); return; }
        ref::Num s=sum2(p,q); bool same=p.k==ref::ZERO||q.k==ref::ZERO||p.neg==q.neg;
        if(wide) { ref::Enc e=ref::encode(f,s); if(same) k.eq(r,e.lo); else k.in(r,e); mon::klass(same?"equal signs":s.k==ref::ZERO?"cancels":"opposite signs"); }
        else { long E=std::max(p.k==ref::FIN?p.e:-(1L<<40),q.k==ref::FIN?q.e:-(1L<<40)); if(E<-(1L<<39)) { k.eq(r,0); return; } near(r,s,E-(B-5)); mon::klass("narrow fraction"); }
    }
    void fma1(int64_t a,int64_t b,int64_t c) { ref::Num x=ref::decode(f,a),y=ref::decode(f,b),z=ref::decode(f,c); P r=fma(mkp<P>(a),mkp<P>(b),mkp<P>(c)); k.begin("fma",a,b,c); terms("fma",a,b,c,ref::mul(x,y),z,r.v);
        k.begin("fma_comm",a,b,c); k.eq(fma(mkp<P>(b),mkp<P>(a),mkp<P>(c)).v,r.v); }
#ifdef POSITMUL
    void lazy(int64_t a,int64_t b,int64_t c,int64_t d)
    {
        P pa=mkp<P>(a),pb=mkp<P>(b),pc=mkp<P>(c),pd=mkp<P>(d); ref::Num x=ref::decode(f,a),y=ref::decode(f,b),z=ref::decode(f,c),w=ref::decode(f,d), m=ref::mul(x,y), n=ref::mul(z,w);
        k.begin("lazy_mul",a,b); P r=pa*pb; k.eq(r.v,ref::trunc(f,m)); k.begin("lazy_as",a,b); k.eq((pa*pb).asPosit().v,r.v); k.begin("lazy_double",a,b); { double e=(double)r, g=(double)(pa*pb); k.ok(e==g||(e!=e&&g!=g),"the double value of the product"); } k.begin("lazy_float",a,b); { float e=(float)r, g=(float)(pa*pb); k.ok(e==g||(e!=e&&g!=g),"the float value of the product"); } k.begin("lazy_unpacked",a,b); { typename P::UnpackedT w=(pa*pb); k.eq(P(w).v,r.v); } k.begin("lazy_int",a,b); k.eq((int)(pa*pb),(int)r);
        k.begin("lazy_sum",a,b,c); { P s=pa*pb+pc*pd; terms("lazy_sum",a,b,c^(int64_t)((uint64_t)d<<32),m,n,s.v); } k.begin("lazy_diff",a,b,c); { P s=pa*pb-pc*pd; terms("lazy_diff",a,b,c^(int64_t)((uint64_t)d<<32),m,ref::neg(n),s.v); }
        k.begin("lazy_addr",a,b,c); { P s=pa*pb+pc; terms("lazy_addr",a,b,c,m,z,s.v); } k.begin("lazy_addl",a,b,c); { P s=pc+pa*pb; terms("lazy_addl",a,b,c,m,z,s.v); }
        k.begin("lazy_kept",a,b,c); { P u=pa, v=pb; auto l=u*v; auto t=mkp<P>(a)*mkp<P>(b); u=pc; v=pd; P q=l, q2=t; k.eq(q.v,r.v); k.eq(q2.v,r.v); P s=l+t, s2=pa*pb+pa*pb; k.eq(s.v,s2.v); } // the product of the operands as they were
        k.begin("lazy_assign",a,b); { P s=pa; s*=pb; k.eq(s.v,ref::trunc(f,m)); }
    }
#endif
    template <class I1,class I2> void dotck(const char*o,I1 i,I2 j,int n,int64_t exp) { k.begin(o,n); k.eq(P::dot(i,j,n).v,exp); }
    void dot(Gen&g,int n,int style)
    {
        std::vector<P> a,b; Quire q; long E=-(1L<<40); bool special=false; ref::Num sp; std::vector<int> ia,ib; 
        for(int i=0;i<n;i++)
        {
            int64_t x=g.pick(), y=g.related(x); ref::Num nx,ny;
            switch(style) { case 0: x=x<0?-x:x; y=y<0?-y:y; break; case 1: break; case 2: if(i&1&&i) { x=a[i-1].v; y=-(int64_t)b[i-1].v; if(g.r.below(3)==0) y+=g.r.range(-1,1); } break; case 3: { ref::Num o=ref::from_i64((int)g.r.below(20)-10); x=ref::trunc(f,o); y=ref::trunc(f,ref::from_i64((int)g.r.below(20)-10)); break; } default: { int64_t one=((int64_t)1)<<(f.N-2); x=g.wrap(one+(int64_t)g.r.below(one)); y=g.wrap(one/2+(int64_t)g.r.below(one)); if(g.r.below(2)) y=-y; } }
            if(!ref::canonical(f,x)) x=1; if(!ref::canonical(f,y)) y=1;
            nx=ref::decode(f,x); ny=ref::decode(f,y); ref::Num m=ref::mul(nx,ny); if(!fin(m)) special=true; sp=i?ref::add(sp,m):m; if(fin(m)&&!special) { q.add(m); if(m.k==ref::FIN) E=std::max(E,m.e); ref::Num s=q.get(); if(s.k==ref::FIN) E=std::max(E,s.e); }
            a.push_back(mkp<P>(x)); b.push_back(mkp<P>(y));
        }
        uint64_t h=0; for(int i=0;i<n;i++) h=h*31+(uint64_t)a[i].v*7+(uint64_t)b[i].v; k.begin("dot",n,h,style); P r=P::dot(a.begin(),b.begin(),n); if(n<1) { k.eq(r.v,0,false); mon::klass("empty"); }
        else if(special) { k.begin("dot",n,h,style); k.eq(r.v,ref::trunc(f,sp),false); mon::klass("special"); }
        else if(E<-(1L<<39)) k.eq(r.v,0,false);
        else { int lg=0; while((1<<lg)<n) lg++; if(wide&&n<=2) { ref::Num m0=ref::mul(ref::decode(f,a[0].v),ref::decode(f,b[0].v)), m1; if(n==2) m1=ref::mul(ref::decode(f,a[1].v),ref::decode(f,b[1].v)); terms("dot2",n,h,style,m0,m1,r.v); } else near(r.v,q.get(),E-(B-5)+lg+1); mon::klass(mon::fmt("dot of %d",n)); }
        std::list<P> l(a.begin(),a.end()); std::deque<P> d(b.begin(),b.end()); { std::unique_ptr<P[]> ea(new P[n>0?n:0]), eb(new P[n>0?n:0]); for(int i=0;i<n;i++) { ea[i]=a[i]; eb[i]=b[i]; } dotck("dot_ptr",(P*)ea.get(),(P*)eb.get(),n,r.v); dotck("dot_mixed",ea.get(),b.begin(),n,r.v); } // exact size: AddressSanitizer sees any access beyond
         dotck("dot_list",l.begin(),d.begin(),n,r.v); dotck("dot_const",a.cbegin(),(const P*)b.data(),n,r.v);
        if(!special) { std::vector<double> da; bool ex=true; for(auto&x:a) { da.push_back((double)x); ex=ex&&P((double)x).v==x.v; } if(ex) dotck("dot_double",da.begin(),b.begin(),n,r.v); }
        for(int i=0;i<n;i++) { ia.push_back(g.r.range(-50,50)); } std::vector<P> pa; for(int x:ia) pa.push_back(P(x)); if(n>0) { P e=P::dot(pa.begin(),b.begin(),n); dotck("dot_int",ia.begin(),b.begin(),n,e.v); if(n<=8) { std::stringstream ss; for(int x:ia) ss<<x<<" "; dotck("dot_stream",std::istream_iterator<int>(ss),b.rbegin(),n,P::dot(pa.begin(),std::vector<P>(b.rbegin(),b.rend()).begin(),n).v); } e=P::dot(pa.begin(),pa.begin(),n); dotck("dot_alias",pa.data(),pa.data(),n,e.v); dotck("dot_square",pa.begin(),std::vector<P>(pa).begin(),n,e.v); }
        k.begin("dot_inputs",n,h,style); bool same=true; uint64_t h2=0; for(int i=0;i<n;i++) h2=h2*31+(uint64_t)a[i].v*7+(uint64_t)b[i].v; k.ok(h2==h,"operands unchanged",false);
    }
};
template <class P> void workload()
{
    W<P> w; auto f=w.f; Gen g(f,salt<P>("fma")); if((long)(f.N-2)*(1L<<f.es)*2>4000) return; // the exact accumulator covers 10240 bits
    auto quad=[&](int64_t a,int64_t b,int64_t c,int64_t d){
#ifdef POSITMUL
        w.lazy(a,b,c,d);
#else
        (void)d; w.fma1(a,b,c);
#endif
    };
    const long n=mon::scale(30000,500000);
    if(f.N<=5) { for(int64_t a=g.top;a<=-(g.top+1);a++) for(int64_t b=g.top;b<=-(g.top+1);b++) for(int64_t c=g.top;c<=-(g.top+1);c++) quad(a,b,c,g.uniform()); }
    for(long i=0;i<n;i++)
    {
        int64_t a=g.pick(), b=g.related(a), c; ref::Num m=ref::mul(ref::decode(f,a),ref::decode(f,b));
        switch(g.r.below(4)) { case 0: c=g.pick(); break; case 1: c=-ref::trunc(f,m)+g.r.range(-2,2); break; default: c=ref::trunc(f,ref::shift(m,(long)g.r.below(2*sizeof(typename Traits<P>::ft)*8+8)-(long)(sizeof(typename Traits<P>::ft)*8+4))); if(g.r.below(2)) c=-c; if(g.r.below(2)) c+=g.r.range(-3,3); }
        if(!ref::canonical(f,c)) c=g.pick(); quad(a,b,c,g.r.below(2)?g.related(c):g.pick());
    }
    // longer than the counters of 8 and 16 bits, and than any block of terms one might think of
    for(int style=0;style<5;style++) for(int nn: {129,257,300,1030}) w.dot(g,nn,style);
    if(f.N==8||f.N==13||(f.N==16&&f.es==1)) { w.dot(g,33000,3); w.dot(g,66000,1); }
    for(int style=0;style<5;style++) { w.dot(g,0,style); w.dot(g,-1,style); for(int nn: {1,2,3,4,5,7,8,16,33,100}) for(long i=0,c=mon::scale(nn<3?60:20,nn<3?600:200);i<c;i++) w.dot(g,nn,style); }
}
WORKLOAD_MAIN
