// encoding: float, double, int, raw float bits, unpacked -> posit is truncation toward zero, saturating
#include "srcgen.hpp"
template <class P> void workload()
{
    using T=Traits<P>; using U=typename P::UnpackedT; Ck<P> k; auto f=k.f; Gen g(f,salt<P>("enc")); DGen s(g);
    constexpr int FB=sizeof(typename T::ft)*8;
    const long cnt=mon::scale(15000,400000);
    auto cls=[&](const ref::Num&x,int64_t e){ if(x.k!=ref::FIN) mon::klass(x.k==ref::ZERO?"zero":x.k==ref::INF?"inf":"nan"); else { int64_t a=e<0?-e:e; mon::klass(a==ref::MAXPOS(f)?"maxpos/saturated":a==1?"minpos/saturated":"interior"); } };
    auto D=[&](double d){ ref::Num x=ref::from_double(d); int64_t e=ref::trunc(f,x); k.begin("from_double",(int64_t)b_of(d)); P p(d); k.eq(p.v,e,x.k==ref::FIN); cls(x,e);
        k.begin("from_double_unpacked",(int64_t)b_of(d)); U u(d); k.eq(P(u).v,e,x.k==ref::FIN); };
    auto F=[&](float d){ ref::Num x=ref::from_float(d); int64_t e=ref::trunc(f,x); k.begin("from_float",b_off(d)); P p(d); k.eq(p.v,e,x.k==ref::FIN); cls(x,e);
        k.begin("from_float_bits",b_off(d)); P q(typename P::single_tag(),b_off(d)); k.eq(q.v,e,x.k==ref::FIN); };
    auto I=[&](int i){ ref::Num x=ref::from_i64(i); int64_t e=ref::trunc(f,x); k.begin("from_int",i); P p(i); k.eq(p.v,e,i!=0); k.begin("from_int_assign",i); P q; q=i; k.eq(q.v,e,i!=0); };
    for(double d: s.specials()) { D(d); F((float)d); }
    for(int i=-130;i<=130;i++) I(i);
    for(int i: {2147483647,-2147483647-1,-2147483647,2147483646,0x40000000,-0x40000000,16777217,33554433}) I(i);
    for(long i=0;i<cnt;i++) { D(s.pick()); F(s.pickf()); I(s.picki()); }
    // arbitrary unpacked numbers, far outside the range of the format too
    const long emax=(long)(f.N-2)*(1L<<f.es);
    const long lim = std::min<long>(emax*2+40, sizeof(((U*)0)->exponent)==2?16000:1000000000L);
    for(long i=0;i<cnt;i++)
    {
        long e; switch(g.r.below(4)) { case 0: e=(long)g.r.below(2*lim+1)-lim; break; case 1: e=emax+g.r.range(-3,3); break; case 2: e=-emax+g.r.range(-3,3); break; default: e=(long)g.r.below(2*emax+1)-emax; }
        uint64_t fr=g.r.next(); switch(g.r.below(5)) { case 0: fr=0; break; case 1: fr=~0ull; break; case 2: { int z=g.r.range(0,63); fr=(fr>>z)<<z; break; } default:; }
        fr>>=(64-FB); bool n=g.r.next()&1;
        ref::Num x; x.k=ref::FIN; x.neg=n; x.e=e; x.m=(((u128)1)<<127)|(((u128)fr)<<(127-FB)); int64_t ex=ref::trunc(f,x);
        k.begin("from_unpacked",e,(int64_t)fr,n); U u((decltype(((U*)0)->exponent))e,(typename T::ft)fr,n); P p(u); k.eq(p.v,ex); cls(x,ex);
    }
    { k.begin("from_unpacked_zero",0); k.eq(P(U::zero()).v,0,false); k.begin("from_unpacked_nan",0); k.eq(P(U::nan()).v,ref::TOP(f),false);
      k.begin("from_unpacked_pinf",0); k.eq(P(U::pinfinity()).v,ref::PINF(f),false); k.begin("from_unpacked_ninf",0); k.eq(P(U::ninfinity()).v,ref::NINF(f),false); 
      k.begin("default",0); k.eq(P().v,0,false); }
}
WORKLOAD_MAIN
