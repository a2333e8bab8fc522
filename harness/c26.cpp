// square root
#include "pw.hpp"
template <class P> void workload()
{
    Ck<P> k; auto f=k.f; Gen g(f,salt<P>("sqrt")); if(f.N>40 || (long)(f.N-2)*(1L<<f.es)>1000) return; const int64_t mx=ref::MAXPOS(f);
    auto one=[&](int64_t v){
        ref::Num x=ref::decode(f,v); P p=mkp<P>(v); k.begin("sqrt",v); int64_t r=std::sqrt(p).v;
        if(x.k==ref::ZERO) { k.eq(r,0,false); mon::klass("zero"); return; } if(x.k==ref::NAN_||(x.k==ref::FIN&&x.neg)||(x.k==ref::INF&&x.neg)) { k.eq(r,ref::TOP(f),x.k==ref::FIN); mon::klass(x.k==ref::FIN?"negative":"special"); return; } if(x.k==ref::INF) { k.eq(r,ref::PINF(f),false); mon::klass("special"); return; }
        auto sq=[&](int64_t a){ ref::Num y=ref::decode(f,a); return ref::cmp(ref::mul(y,y),x); };
        bool good=r>0&&r<=mx; if(good) { int c=sq(r); if(c<0) good= r==mx || sq(r+1)>0; else if(c>0) good= r==1 || sq(r-1)<0; mon::klass(c==0?"exact":c<0?"below":"above"); } k.ok(good,"the root or a neighbour of it");
        if(v<mx) { k.begin("sqrt_monotone",v,v+1); k.ok(std::sqrt(mkp<P>(v+1)).v>=r,"non decreasing"); }
    };
    g.unary(mon::scale(60000,1500000),one);
    // perfect squares and their neighbours
    for(long i=0,n=mon::scale(5000,100000);i<n;i++) { int64_t a=g.pick(); if(a<0) a=-a; if(a<=0||a>mx) continue; ref::Num x=ref::decode(f,a); int64_t s=ref::trunc(f,ref::mul(x,x)); for(int64_t d=-1;d<=1;d++) if(s+d>0&&s+d<=mx) one(s+d); }
}
WORKLOAD_MAIN
