// round trips
#include "srcgen.hpp"
template <class P,bool OK> struct Wide { static void go(Ck<P>&,Gen&,int64_t){} };
// the same posit format embedded in a larger one: same values, pattern shifted left
template <class T,int N,int ES,class FT,PositSpec S> struct Wide<Posit<T,N,ES,FT,S>,true>
{
    using P=Posit<T,N,ES,FT,S>; using Q=Posit<int64_t,N+7,ES,uint64_t,S>;
    static void go(Ck<P>&k,Gen&,int64_t v)
    {
        auto f=k.f; ref::Num x=ref::decode(f,v); if(x.k==ref::INF||x.k==ref::NAN_) return; double d=ref::to_double(x); if(ref::cmp(ref::from_double(d),x)!=0) return;
        P p=mkp<P>(v);
        k.begin("widen",v); Q q((double)p); k.eq((int64_t)q.v, v*128, v!=0);
        k.begin("widen_back",v); P b((double)q); k.eq(b.v,v,v!=0);
        k.begin("widen_floor",v); int64_t w=v*128+(v>0?77:-77); if(v>0&&v<ref::MAXPOS(f)||v<0&&v>-ref::MAXPOS(f)) { Q z(typename Q::DeepInit(),w); double zd=ref::to_double(ref::decode(ref::PF{N+7,ES,f.spec},w)); if(ref::cmp(ref::from_double(zd),ref::decode(ref::PF{N+7,ES,f.spec},w))==0) k.eq(P((double)z).v,v); }
    }
};
template <class P> void workload()
{
    using U=typename P::UnpackedT; Ck<P> k; auto f=k.f; Gen g(f,salt<P>("rt")); DGen s(g);
    g.unary(mon::scale(20000,500000),[&](int64_t v){
        P p=mkp<P>(v); ref::Num x=ref::decode(f,v); bool nt=v&&v!=ref::TOP(f);
        k.begin("unpack_pack",v); k.eq(P(p.unpack()).v,v,nt);
        k.begin("unpacked_conv",v); { U u=p; k.eq(P(u).v,v,nt); }
        k.begin("low_pack",v); k.eq(P(p.unpack_low()).v,v,nt);
        double d=ref::to_double(x); float fl=ref::to_float(x);
        bool ed = x.k!=ref::FIN || ref::cmp(ref::from_double(d),x)==0, ef = x.k!=ref::FIN || ref::cmp(ref::from_float(fl),x)==0;
        if(ed) { k.begin("via_double",v); k.eq(P((double)p).v,v,nt); mon::klass("exact in double"); }
        else { k.begin("via_double_trunc",v); k.eq(P((double)p).v, x.k==ref::FIN?ref::trunc(f,ref::from_double(d)):v, nt); mon::klass("inexact in double"); }
        if(ef) { k.begin("via_float",v); k.eq(P((float)p).v,v,nt); k.begin("via_float_bits",v); k.eq(P(typename P::single_tag(),p.as_float_bin()).v,v,nt); mon::klass("exact in float"); }
        if(x.k==ref::FIN && x.e>=0 && x.e<31) { int64_t i=ref::to_fixed(x,32,0); if(ref::cmp(ref::from_i64(i),x)==0) { k.begin("via_int",v); k.eq(P((int)p).v,v,nt); k.begin("int_value",v); k.eq((int)p,i,nt); mon::klass("integer"); } }
        Wide<P,(Traits<P>::n+7+Traits<P>::es<=63)>::go(k,g,v);
    });
    for(long i=0,c=mon::scale(10000,200000);i<c;i++)   // encoding is idempotent
    { double d=s.pick(); P p(d); if(f.N+f.es<=40 && f.es<=4 ) { k.begin("idempotent",(int64_t)b_of(d)); P q((double)p); k.eq(q.v,p.v); }
      k.begin("pack_unpack",(int64_t)b_of(d)); U u=p.unpack(); P q(u); U w=q.unpack(); k.ok(u==w||(u.isNaN()&&w.isNaN()),"unpack(pack(u))==u"); }
}
WORKLOAD_MAIN
