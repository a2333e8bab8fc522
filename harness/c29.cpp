// matrices of posits: every element, reduction and trait against the scalar posit
#include "positeigen.h"
#include <Eigen/Dense>
#include "pw.hpp"
#include <sstream>
#include <new>
template <class P> struct Mat
{
    using M=Eigen::Matrix<P,Eigen::Dynamic,Eigen::Dynamic>; using R=Eigen::Matrix<P,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>; using V=Eigen::Matrix<P,Eigen::Dynamic,1>; using F=Eigen::Matrix<P,3,3>; using T=Traits<P>;
    ref::PF f=T::pf(); const char*cfg=T::name().c_str(); uint64_t hc=mon::hstr(cfg); Gen g; Mat():g(f,salt<P>("matrices")){} std::string op;
    void eq(P got,P want,long i=0,long j=0) { mon::seen(mon::hash3(hc^mon::mix((uint64_t)(int64_t)want.v),mon::hstr(op.c_str()),(uint64_t)(int64_t)got.v+mon::cur.a*1000+i*40+j),want.v!=0); if(got.v!=want.v) mon::violation(std::string(cfg)+"|"+op,mon::fmt("%s|%s|%lld|%ld|%ld",cfg,op.c_str(),mon::cur.a,i,j),mon::fmt("element (%ld,%ld): expected %s got %lld",i,j,ref::pstr(f,want.v).c_str(),(long long)got.v)); else if(mon::want_sample()) mon::sample(mon::fmt("%s %s -> %lld",cfg,op.c_str(),(long long)got.v)); }
    void ok(bool x,const char*w,long i=0,long j=0) { mon::seen(mon::hash3(hc^mon::hstr(op.c_str()),mon::cur.a,i*40+j),true); if(!x) mon::violation(std::string(cfg)+"|"+op,mon::fmt("%s|%s|%lld|%ld|%ld",cfg,op.c_str(),mon::cur.a,i,j),w); }
    void begin(const char*o,long it) { op=o; for(auto&c:op) if(c==' ') c='_'; mon::cur=mon::Cur{cfg,o,it,0,0}; mon::klass(o); }
    bool finite(int64_t v) { auto k=ref::decode(f,v).k; return k!=ref::NAN_&&k!=ref::INF; }
    int64_t fin() { for(;;) { int64_t v=g.pick(); if(ref::canonical(f,v)&&finite(v)) return v; } }
    int64_t any() { for(;;) { int64_t v=g.pick(); if(ref::canonical(f,v)) return v; } }
    M rnd(int r,int c,bool fi) { M m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=mkp<P>(fi?fin():any()); return m; }
    template <class X,class E> void each(const X&x,const E&e) { for(int i=0;i<x.rows();i++) for(int j=0;j<x.cols();j++) eq(x(i,j),e(i,j),i,j); }
    template <class X> std::vector<std::string> toks(const X&x) { std::ostringstream o; o<<x; std::istringstream s(o.str()); std::vector<std::string> r; std::string t; while(s>>t) r.push_back(t); return r; }
    void traits()
    {
        using N=Eigen::NumTraits<P>; using L=std::numeric_limits<P>; begin("traits",0); ok(!N::IsInteger,"IsInteger",1); ok(N::IsSigned,"IsSigned",2); ok(!N::IsComplex,"IsComplex",3); ok(N::RequireInitialization,"RequireInitialization",4); ok(std::is_same<typename N::Real,P>::value,"Real",5); ok(std::is_same<typename N::NonInteger,P>::value,"NonInteger",6); ok((int)N::ReadCost>0&&(int)N::AddCost>0&&(int)N::MulCost>0,"costs",7);
        eq(N::epsilon(),L::epsilon(),1); eq(N::highest(),L::max(),2); eq(N::lowest(),L::lowest(),3); ok(N::digits10()==L::digits10,"digits10",8);
        using UN=Eigen::NumTraits<typename P::UnpackedT>; ok(!UN::IsInteger&&UN::IsSigned&&!UN::IsComplex&&UN::RequireInitialization,"traits of the unpacked type",9);
    }
    void shapes(long it)
    {
        const int r=1+g.r.below(7), c=1+g.r.below(7); M A=rnd(r,c,false); begin("constants",it); const P s=mkp<P>(any());
        each(M::Zero(r,c),[](int,int){ return P(0); }); each(M::Ones(r,c),[](int,int){ return P(1); }); each(M::Constant(r,c,s),[&](int,int){ return s; }); each(M::Identity(r,c),[](int i,int j){ return P(i==j?1:0); }); { M z(A); z.setZero(); each(z,[](int,int){ return P(0); }); z.setOnes(); each(z,[](int,int){ return P(1); }); z.fill(s); each(z,[&](int,int){ return s; }); z.setIdentity(); each(z,[](int i,int j){ return P(i==j?1:0); }); }
        begin("fresh matrices",it); { for(size_t n=sizeof(P)*64;n<=sizeof(P)*64+96;n+=16) { void*w[8]; for(auto&x:w) { x=malloc(n); memset(x,0x5a,n); } asm volatile(""::"r"(w):"memory"); for(auto x:w) free(x); } M z(8,8); each(z,[](int,int){ return P(0); }); alignas(64) unsigned char b[sizeof(F)]; memset(b,0x5a,sizeof b); F*q=new(b) F; each(*q,[](int,int){ return P(0); }); ok(sizeof(F)==9*sizeof(P),"size of a fixed matrix"); }
        begin("copies and views",it); { M B(A); each(B,A); R W(A); each(W,A); each(A.transpose(),[&](int i,int j){ return A(j,i); }); each(A.reverse(),[&](int i,int j){ return A(r-1-i,c-1-j); }); int br=1+g.r.below(r),bc=1+g.r.below(c); each(A.block(r-br,c-bc,br,bc),[&](int i,int j){ return A(r-br+i,c-bc+j); }); each(A.replicate(2,2),[&](int i,int j){ return A(i%r,j%c); }); M C(B); C.conservativeResize(r+1,c+2); each(C.topLeftCorner(r,c),A); M D=rnd(r,c,false),E=D; B.swap(D); each(B,E); each(D,A); A.data(); Eigen::Map<const M> mp((const P*)A.data(),r,c); each(mp,A);
          for(int k=0;k<r*c;k++) { typename T::holder h; memcpy(&h,(const char*)A.data()+k*sizeof(P),sizeof h); ok((int64_t)h==(int64_t)A(k%r,k/r).v,"memory of the matrix",k); } ok((A.array()==A.array()).count()==[&]{ int n=0; for(int i=0;i<r;i++) for(int j=0;j<c;j++) n+=A(i,j)==A(i,j); return n; }(),"count of equal elements"); }
        begin("printed",it); { M Q=rnd(r,c,true); auto t=toks(Q); ok((int)t.size()==r*c,"number of elements"); if((int)t.size()==r*c) for(int i=0;i<r;i++) for(int j=0;j<c;j++) { std::ostringstream o; o<<Q(i,j); ok(o.str()==t[i*c+j],"text of an element",i,j); } }
    }
    void elementwise(long it)
    {
        const int r=1+g.r.below(9), c=1+g.r.below(9); const bool fi=it&1; M A=rnd(r,c,fi),B=rnd(r,c,fi); if(it%3==0) for(int i=0;i<r;i++) for(int j=0;j<c;j++) { int64_t v=g.related(A(i,j).v); if(ref::canonical(f,v)&&(!fi||finite(v))) B(i,j)=mkp<P>(v); } const P s=mkp<P>(fin());
#define EL(n,x,w) { begin(n,it); M X_=x; each(X_,[&](int i,int j)->P{ const P a=A(i,j), b=B(i,j); (void)a; (void)b; return w; }); }
        EL("sum",A+B,a+b) EL("difference",A-B,a-b) EL("elementwise product",A.cwiseProduct(B),a*b) EL("elementwise quotient",A.cwiseQuotient(B),a/b) EL("negation",-A,-a) EL("scaled",A*s,a*s) EL("scaled from the left",s*A,s*a) EL("divided",A/s,a/s) EL("array sum with a scalar",A.array()+s,a+s) EL("array product",A.array()*B.array(),a*b) EL("array quotient",A.array()/B.array(),a/b) EL("compound expression",A+B-A.cwiseProduct(B),(a+b)-P(a*b)) EL("fused scaling",(s*A+B*s).eval(),P(s*a)+P(b*s))
        EL("in place",[&]{ M C=A; C+=B; C*=s; C/=s; return C; }(),P(P(P(a+b)*s)/s)) EL("in place array",[&]{ M C=A; C.array()+=s; C.array()*=B.array(); return C; }(),P(P(a+s)*b)) EL("aliased",[&]{ M C=A; C+=C; C=C.cwiseProduct(C); return C; }(),P(P(a+a)*P(a+a)))
        EL("inverse elements",A.cwiseInverse(),P(1)/a) EL("square elements",A.cwiseAbs2(),a*a)
        EL("applied function",A.unaryExpr([](P x){ return x.half(); }),a.half()) EL("two argument function",A.binaryExpr(B,[](P x,P y){ return x+y; }),a+b)
        if(fi) { EL("absolute values",A.cwiseAbs(),a.abs()) EL("minimum",A.cwiseMin(B),(b<a)?b:a) EL("maximum",A.cwiseMax(B),(a<b)?b:a) if(T::n<=32) EL("square root",A.cwiseAbs().array().sqrt(),std::sqrt(a.abs())) }
        begin("comparisons",it); { auto lt=(A.array()<B.array()).eval(); auto le=(A.array()<=B.array()).eval(); auto ee=(A.array()==B.array()).eval(); auto ne=(A.array()!=B.array()).eval(); bool all=true; for(int i=0;i<r;i++) for(int j=0;j<c;j++) { P a=A(i,j),b=B(i,j); ok(lt(i,j)==(a<b)&&le(i,j)==(a<=b)&&ee(i,j)==(a==b)&&ne(i,j)==(a!=b),"elementwise comparison",i,j); all=all&&a==b; } ok((A==B)==all,"equality of matrices"); }
        begin("casts",it); { Eigen::MatrixXd d=A.template cast<double>(); Eigen::MatrixXf e=A.template cast<float>(); for(int i=0;i<r;i++) for(int j=0;j<c;j++) { double x=(double)A(i,j); float y=(float)A(i,j); ok((d(i,j)==x||(x!=x&&d(i,j)!=d(i,j)))&&(e(i,j)==y||(y!=y&&e(i,j)!=e(i,j))),"to native",i,j); d(i,j)=(g.r.below(4)?x:0)*(1+(double)g.r.below(1000)/512)+(double)g.r.below(7)-3; } each(d.cast<P>(),[&](int i,int j){ return P(d(i,j)); }); Eigen::MatrixXf ff=d.cast<float>(); each(ff.cast<P>(),[&](int i,int j){ return P(ff(i,j)); }); Eigen::MatrixXi n(r,c); for(int k=0;k<r*c;k++) n.data()[k]=(int)g.r.next()>>g.r.below(31); each(n.cast<P>(),[&](int i,int j){ return P(n(i,j)); }); if(fi) { Eigen::MatrixXi z=A.template cast<int>(); for(int i=0;i<r;i++) for(int j=0;j<c;j++) ok(z(i,j)==(int)A(i,j),"to int",i,j); } }
    }
    // two terms that are not zero: every order of summation gives their sum
    void reductions(long it)
    {
        const int r=1+g.r.below(9), c=1+g.r.below(9), n=r*c; M A=M::Zero(r,c); int i1=g.r.below(n), i2=g.r.below(n); const P x=mkp<P>(fin()), y=mkp<P>(ref::canonical(f,g.related(x.v))?fin():fin()); A.data()[i1]=x; A.data()[i2]=y; const P two=i1==i2?y:P(x+y);
        begin("sum of all",it); eq(A.sum(),two); begin("sum of rows",it); { V s=A.rowwise().sum(); for(int i=0;i<r;i++) { P e=0; for(int j=0;j<c;j++) e+=A(i,j); eq(s(i),e,i); } } begin("sum of columns",it); { auto s=A.colwise().sum().eval(); for(int j=0;j<c;j++) { P e=0; for(int i=0;i<r;i++) e+=A(i,j); eq(s(j),e,j); } }
        begin("squared norm",it); { P e=i1==i2?P(y*y):P(P(x*x)+P(y*y)); eq(A.squaredNorm(),e); if(T::n<=32) { begin("norm",it); eq(A.norm(),std::sqrt(e)); } } begin("sum of absolute values",it); eq(A.template lpNorm<1>(),i1==i2?y.abs():P(x.abs()+y.abs()));
        begin("largest and smallest",it); { M B=rnd(r,c,true); P mx=B(0,0),mn=B(0,0); for(int k=0;k<n;k++) { P b=B.data()[k]; if(b>mx) mx=b; if(b<mn) mn=b; } Eigen::Index i,j; P m=B.maxCoeff(&i,&j); eq(m,mx,1); eq(B(i,j),mx,2); m=B.minCoeff(&i,&j); eq(m,mn,3); eq(B(i,j),mn,4); eq(B.maxCoeff(),mx,5); eq(B.minCoeff(),mn,6); P am=B(0,0).abs(); for(int k=0;k<n;k++) am=std::max(am,B.data()[k].abs()); eq(B.template lpNorm<Eigen::Infinity>(),am,7); }
        begin("product of all",it); { M O=M::Ones(r,c); O.data()[i1]=x; O.data()[i2]=y; eq(O.prod(),i1==i2?y:P(x*y)); } begin("trace",it); { M S=M::Zero(n,n); S(i1,i1)=x; S(i2,i2)=y; S(0,n-1)=n>1?mkp<P>(fin()):S(0,0); eq(S.trace(),two); }
        begin("dot",it); { V a=V::Zero(n),b=V::Constant(n,mkp<P>(fin())); a(i1)=x; a(i2)=y; b(i1)=mkp<P>(fin()); b(i2)=mkp<P>(fin()); P e=i1==i2?P(y*b(i2)):P(P(x*b(i1))+P(y*b(i2))); eq(a.dot(b),e,1); eq(b.dot(a),e,2); P e2=(a.transpose()*b)(0,0); eq(e2,e,3); }
        begin("matrix product",it); { const int k=1+g.r.below(12); M L=M::Zero(r,k); int k1=g.r.below(k),k2=g.r.below(k); for(int i=0;i<r;i++) { L(i,k1)=mkp<P>(fin()); L(i,k2)=mkp<P>(fin()); } M B=rnd(k,c,true); auto e=[&](int i,int j)->P{ return k1==k2?P(L(i,k1)*B(k1,j)):P(P(L(i,k1)*B(k1,j))+P(L(i,k2)*B(k2,j))); }; M C=L*B; each(C,e); R D=L.lazyProduct(B); each(D,e); M N(r,c); N.noalias()=L*B; each(N,e); M K=A; K.noalias()+=M::Zero(r,k)*B; each(K,A); V bv=B.col(0); V cv=L*bv; for(int i=0;i<r;i++) eq(cv(i),e(i,0),i,99);
          M G=rnd(r,c,true); each(M::Identity(r,r)*G,G); each(G*M::Identity(c,c),G); const P sc=mkp<P>(fin()); V u=rnd(r,1,true).col(0), w=rnd(c,1,true).col(0); each((u*w.transpose()).eval(),[&](int i,int j){ return P(u(i)*w(j)); }); (void)sc; }
    }
    // small integers: exact in every order
    void exact(long it)
    {
        int lim=0; while(lim<200&&(double)P(lim+1)==lim+1) lim++; if(lim<40) return; const int k=std::min(lim,64), r=1+g.r.below(48), c=1+g.r.below(48); Eigen::MatrixXi a(r,k),b(k,c); for(int i=0;i<a.size();i++) a.data()[i]=g.r.range(-1,1); for(int i=0;i<b.size();i++) b.data()[i]=g.r.range(-1,1);
        begin("large exact product",it); M A=a.cast<P>(),B=b.cast<P>(); Eigen::MatrixXi e=a*b; each((A*B).eval(),[&](int i,int j){ return P(e(i,j)); }); R Ar(A); each((Ar*B).eval(),[&](int i,int j){ return P(e(i,j)); }); M S=A.transpose()*A; begin("symmetric exact product",it); if(r<=lim) { Eigen::MatrixXi s=a.transpose()*a; each(S,[&](int i,int j){ return P(s(i,j)); }); } begin("exact sums",it); V t=A.rowwise().sum(); for(int i=0;i<r;i++) eq(t(i),P((int)a.row(i).sum()),i); V q=A*V::Ones(k); for(int i=0;i<r;i++) eq(q(i),P((int)a.row(i).sum()),i,1); M C=M::Constant(r,c,P(1)); if(k+1<=lim) { C.noalias()+=A*B; each(C,[&](int i,int j){ return P(e(i,j)+1); }); }
    }
};
template <class P> void workload() { Mat<P> m; m.traits(); const long n=mon::scale(60,600); for(long i=0;i<n;i++) { m.shapes(i); m.elementwise(i); m.reductions(i); if(i%8==0) m.exact(i); } }
WORKLOAD_MAIN
