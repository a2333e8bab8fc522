// the program made of many translation units: layouts agree, objects travel between them, results are the same
#include "c28.hpp"
#include "mon.hpp"
#include <vector>
#define DECL(i) extern const Tu28 tu28_##i;
TUS(DECL)
#define NAME(i) &tu28_##i,
static const Tu28*const tus[]={TUS(NAME)};
int main(int c,char**v)
{
    mon::init(c,v); const int T=sizeof tus/sizeof*tus; const int N=mon::scale(48,400); std::map<std::string,std::vector<std::pair<int,const Api28*>>> by;
    for(int i=0;i<T;i++) { mon::klass(std::string("translation unit ")+tus[i]->how); for(int k=0;k<tus[i]->n;k++) by[tus[i]->api[k].type].push_back({i,&tus[i]->api[k]}); }
    for(auto&e:by)
    {
        const std::string&ty=e.first; auto&a=e.second; const Api28&z=*a[0].second; mon::klass("type "+ty); uint64_t hc=mon::hstr(ty.c_str()); auto key=[&](const char*w,int i,int x){ std::string s=mon::fmt("layout|%s|%s|%s|%d",ty.c_str(),w,tus[a[i].first]->how,x); for(auto&ch:s) if(ch==' ') ch='_'; return s; };
        for(size_t i=0;i<a.size();i++)
        {
            const Api28&p=*a[i].second; mon::cur=mon::Cur{ty.c_str(),"layout",(long long)i,0,0}; mon::seen(mon::hash3(hc,i,1),true);
            if(p.size*8!=p.bits) mon::violation("layout|size|"+ty,key("size",i,0),mon::fmt("%u bytes in '%s', its pattern has %u bits",p.size,tus[a[i].first]->how,p.bits));
            if(p.align>p.size||p.align*8>p.bits) mon::violation("layout|align|"+ty,key("align",i,0),mon::fmt("alignment %u, size %u",p.align,p.size));
            if(p.poly||!p.trivial) mon::violation("layout|plain|"+ty,key("plain",i,0),"not a plain pattern: virtual functions, a destructor or another layout");
            if(p.size!=z.size||p.align!=z.align) mon::violation("layout|agree|"+ty,key("agree",i,0),"two translation units lay the type out differently");
            if(p.fresh) for(int h=0;h<3;h++) { int64_t r=p.fresh(h); mon::seen(mon::hash3(hc,i*8+h,2),true); if(r) mon::violation("layout|fresh|"+ty,key("fresh",i,h),mon::fmt("a default constructed value is %llx, not zero (or it wrote beside itself)",(long long)r)); }
        }
        mon::Rng r(mon::hash3(mon::seed(),hc,3)); alignas(32) unsigned char x[32],y[32]; const unsigned sz=z.size<=32?z.size:32; int nb=z.bits; { size_t q=ty.find(','); if(ty.compare(0,5,"Posit")==0&&q!=std::string::npos) nb=atoi(ty.c_str()+q+1); else if(ty=="posit10") nb=10; else if(ty=="posit12") nb=12; }
        for(int k=0;k<N;k++)
        {
            if(nb<=64) { int64_t s=(int64_t)(r.next()<<(64-nb))>>(64-nb), t=(int64_t)(r.next()<<(64-nb))>>(64-nb); if(k<3) s=k==0?0:k==1?INT64_MIN>>(64-nb):t; memcpy(x,&s,8); memcpy(y,&t,8); } else for(int i=0;i<32;i++) { x[i]=r.next(); y[i]=r.next(); }
            uint64_t want=0; memcpy(&want,x,sz<8?sz:8);
            for(size_t i=0;i<a.size();i++) for(size_t j=0;j<a.size();j++) { mon::cur=mon::Cur{ty.c_str(),"travel",(long long)want,(long long)i,(long long)j}; uint64_t g=a[i].second->caller(a[j].second->callee,x,y); mon::seen(mon::hash3(hc^want,i*64+j,4),want!=0); if(g!=want) mon::violation("layout|travel|"+ty,key("travel",i,(int)j),mon::fmt("%llx sent from '%s' to '%s' came back as %llx",(unsigned long long)want,tus[a[i].first]->how,tus[a[j].first]->how,(unsigned long long)g)); }
            for(int op=0;op<z.nops;op++) { uint64_t w=0; for(size_t i=0;i<a.size();i++) { mon::cur=mon::Cur{ty.c_str(),"operation",(long long)want,op,(long long)i}; uint64_t g=a[i].second->run(op,x,y); mon::seen(mon::hash3(hc^want,op*64+i,5),want!=0); if(!i) w=g; else if(g!=w) mon::violation("layout|same|"+ty,key("same",i,op),mon::fmt("operation %d on %llx: %llx here, %llx in '%s'",op,(unsigned long long)want,(unsigned long long)g,(unsigned long long)w,tus[a[0].first]->how)); } }
        }
        if(mon::want_sample()) mon::sample(ty+mon::fmt(": %u bytes in %zu translation units",z.size,a.size()));
    }
    return mon::finish();
}
