// decoding and encoding of IEEE-like formats
#include "fw.hpp"
template <class U,class Tr> void fmt1(const char*un)
{
    auto f=FInfo<Tr>::ff(); Rec k(std::string(un)+"/"+FInfo<Tr>::name()); using H=typename Tr::holder_t; constexpr int FB=U::FT_bits; BGen g(f,mon::hash3(mon::seed(),k.hc,1));
    g.all(mon::scale(60000,1500000),[&](uint64_t b){
        ref::Num x=ref::decode_float(f,b), y=cut(x,FB); bool nt=x.k==ref::FIN;
        k.begin("decode",b); U u=U::template make_floati<Tr>((H)b); k.ck(same(u,y),ref::str(y),nt||u.isRegular()?ustr(u):"special",nt);
        k.begin("decode_onto_used",b); U w=used<U>(mon::mix(b)); U&w2=w.template unpack_xfloati<Tr>((H)b); k.ck(alike(w,u)&&&w2==&w,ustr(u),ustr(w));
        k.begin("encode",b); uint64_t e=ref::encode_float(f,y), got=(uint64_t)u.template pack_xfloati<Tr>(); k.ck(fsame(f,got,e)&&(nt?got==e||(got<<(65-fbitsof(f)))==0:true),hx(e),hx(got),nt);
        if(f.fbits<=FB && (x.k==ref::FIN||x.k==ref::INF)) { k.begin("roundtrip",b); k.ck(got==b,hx(b),hx(got),nt); }
        if(x.k==ref::FIN) mon::klass((((b>>f.fbits)&((1u<<f.ebits)-1))==0)?"subnormal":"normal"); else mon::klass(x.k==ref::ZERO?"zero":x.k==ref::INF?"inf":"nan");
    });
    for(long i=0,n=mon::scale(40000,1000000);i<n;i++)
    {
        long bias=(1L<<(f.ebits-1))-1; ref::Num x=rnum(g.r,FB,-bias-f.fbits-40,bias+20); if(g.r.below(3)==0) x.e=-bias-(long)g.r.below(f.fbits+3)+1; else if(g.r.below(8)==0) x.e=bias+(long)g.r.below(3)-1;
        if(sizeof(U().exponent)==2 && (x.e>16000||x.e<-16000)) continue;
        k.begin("encode_any",x.e,(int64_t)(uint64_t)((x.m<<1)>>64),x.neg); U u=umake<U>(x); uint64_t e=ref::encode_float(f,x), got=(uint64_t)u.template pack_xfloati<Tr>(); k.ck(fsame(f,got,e),hx(e),hx(got));
        mon::klass((e&~(((uint64_t)1)<<(fbitsof(f)-1)))==0?"flushed to zero":((e>>f.fbits)&((1u<<f.ebits)-1))==0?"encoded subnormal":(long)x.e>bias?"saturated":"encoded normal");
    }
    auto c=[&](const char*n,uint64_t h,const ref::Num&x){ k.begin(n,(int64_t)h); ref::Num d=ref::decode_float(f,h); k.ck(d.k==x.k&&(x.k!=ref::FIN&&x.k!=ref::INF||(d.neg==x.neg&&(x.k==ref::INF||(d.e==x.e&&d.m==x.m)))),ref::str(x),ref::str(d)); };
    ref::Num one=ref::from_i64(1), inf; inf.k=ref::INF; ref::Num nan; nan.k=ref::NAN_;
    c("one",Tr::one_h,one); c("two",Tr::two_h,ref::shift(one,1)); c("pinf",Tr::pinfinity_h,inf); c("ninf",Tr::ninfinity_h,ref::neg(inf)); c("nan",Tr::nan_h,nan);
    long bias=(1L<<(f.ebits-1))-1; ref::Num mx=one; mx.e=bias; mx.m=(~(u128)0)<<(127-f.fbits); c("max",Tr::max_h,mx); c("lowest",Tr::lowest_h,ref::neg(mx)); c("min",Tr::min_h,ref::shift(one,1-bias));
    k.begin("enc_nan",0); k.ck(fsame(f,(uint64_t)U::nan().template pack_xfloati<Tr>(),Tr::nan_h),"nan","-"); k.begin("enc_inf",0); k.ck((uint64_t)U::pinfinity().template pack_xfloati<Tr>()==(uint64_t)Tr::pinfinity_h && (uint64_t)U::ninfinity().template pack_xfloati<Tr>()==(uint64_t)Tr::ninfinity_h,"signed infinities","-"); k.begin("enc_zero",0); k.ck((uint64_t)U::zero().template pack_xfloati<Tr>()==0,"0","-");
}
template <class S,class D> void cross()
{
    auto fs=FInfo<S>::ff(), fd=FInfo<D>::ff(); Rec k(std::string("convert ")+FInfo<S>::name()+"->"+FInfo<D>::name()); BGen g(fs,mon::hash3(mon::seed(),k.hc,2)); constexpr int FB=sizeof(typename S::holder_t)>sizeof(typename D::holder_t)?sizeof(typename S::holder_t)*8:sizeof(typename D::holder_t)*8;
    g.all(mon::scale(60000,1500000),[&](uint64_t b){ ref::Num x=cut(ref::decode_float(fs,b),FB); uint64_t e=ref::encode_float(fd,x); k.begin("convert",b); uint64_t got=(uint64_t)convertfloats<S,D,void>((typename S::holder_t)b); k.ck(fsame(fd,got,e),hx(e),hx(got),x.k==ref::FIN); });
}
template <class S> void crossall() { cross<S,half_trait>(); cross<S,single_trait>(); cross<S,double_trait>(); cross<S,microfloat_trait>(); cross<S,half_traitalt>(); cross<S,bfloat16_trait>(); }
template <class FT,class ET> void unp()
{
    using U=Unpacked<FT,ET>; std::string n=uname<FT,ET>(); constexpr int FB=U::FT_bits;
    fmt1<U,half_trait>(n.c_str()); fmt1<U,single_trait>(n.c_str()); fmt1<U,double_trait>(n.c_str()); fmt1<U,microfloat_trait>(n.c_str()); fmt1<U,half_traitalt>(n.c_str()); fmt1<U,bfloat16_trait>(n.c_str());
    // native entry points
    Rec k(n+"/native"); BGen gd(ref::FF{11,52,true},mon::hash3(mon::seed(),k.hc,3)), gf(ref::FF{8,23,true},mon::hash3(mon::seed(),k.hc,4)), gh(ref::FF{5,10,true},5);
    gd.all(mon::scale(20000,400000),[&](uint64_t b){ double d; memcpy(&d,&b,8); ref::Num x=cut(ref::from_double(d),FB); bool nt=x.k==ref::FIN;
        k.begin("from_double",b); U u(d); k.ck(same(u,x),ref::str(x),ustr(u),nt); k.begin("from_double_m",b); U w; w.unpack_double(d); k.ck(same(w,x)," "," ",nt); k.begin("double_onto_used",b); w=used<U>(mon::mix(b)); w.unpack_double(d); k.ck(alike(w,u),ustr(u),ustr(w));
        k.begin("to_double",b); double r=(double)u; uint64_t rb; memcpy(&rb,&r,8); k.ck(fsame(gd.f,rb,ref::encode_float(gd.f,x)),hx(ref::encode_float(gd.f,x)),hx(rb),nt);
        k.begin("to_float",b); float s=(float)u; uint32_t sb; memcpy(&sb,&s,4); k.ck(fsame(gf.f,sb,ref::encode_float(gf.f,x)),hx(ref::encode_float(gf.f,x)),hx(sb),nt);
        k.begin("to_half",b); halffloat h=u.operator halffloat(); k.ck(fsame(gh.f,h.what,ref::encode_float(gh.f,x)),hx(ref::encode_float(gh.f,x)),hx(h.what),nt);
        k.begin("pack_float",b); float s2=u.template pack_float<float>(); memcpy(&sb,&s2,4); k.ck(fsame(gf.f,sb,ref::encode_float(gf.f,x)),"","",nt); double d2=u.template pack_float<double>(); memcpy(&rb,&d2,8); k.begin("pack_double",b); k.ck(fsame(gd.f,rb,ref::encode_float(gd.f,x)),"","",nt); });
    gf.all(mon::scale(20000,400000),[&](uint64_t b){ float d; uint32_t bb=(uint32_t)b; memcpy(&d,&bb,4); ref::Num x=cut(ref::from_float(d),FB); bool nt=x.k==ref::FIN;
        k.begin("from_float",b); U u(d); k.ck(same(u,x),ref::str(x),ustr(u),nt); k.begin("from_bits",b); U w(typename U::single_tag(),bb); k.ck(same(w,x),ref::str(x),ustr(w),nt); k.begin("make_float",b); U v=U::template make_float<single_trait>(d); k.ck(same(v,x),"","",nt); k.begin("float_onto_used",b); w=used<U>(mon::mix(b)); w.unpack_float(d); k.ck(alike(w,u),ustr(u),ustr(w)); });
    gh.all(0,[&](uint64_t b){ ref::Num x=cut(ref::decode_float(gh.f,b),FB); k.begin("from_half",b); U u(halffloat((uint16_t)b)); k.ck(same(u,x),ref::str(x),ustr(u),x.k==ref::FIN); k.begin("half_onto_used",b); U w=used<U>(mon::mix(b)); w.unpack_half(halffloat((uint16_t)b)); k.ck(alike(w,u),ustr(u),ustr(w)); });
}
int main(int c,char**v)
{
    mon::init(c,v); int w=c>1?atoi(v[1]):-1;
    switch(w) { case 0: unp<uint8_t,int>(); break; case 1: unp<uint16_t,int>(); break; case 2: unp<uint32_t,int>(); break; case 3: unp<uint64_t,int>(); break; case 4: unp<uint16_t,int16_t>(); break; case 5: unp<uint32_t,int16_t>(); unp<uint64_t,int64_t>(); break;
     case 6: crossall<half_trait>(); crossall<single_trait>(); crossall<bfloat16_trait>(); break; case 7: crossall<double_trait>(); crossall<microfloat_trait>(); crossall<half_traitalt>(); break; }
    return mon::finish();
}
