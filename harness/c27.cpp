// offline monitor of what the listing tool printed: every line is parsed and judged against the bit-by-bit decoding of its pattern
// usage: c27 name N es spec(0,1,2) holderbits fractionbits regular(0: tabulated) format stdout-file binary-file exitcode
#include "ref.hpp"
#include "mon.hpp"
#include "prt.hpp"
#include <fstream>
#include <cmath>
#include <set>
static std::string nm,F; static ref::PF f; static int HB,FB; static bool tab_;
static std::vector<std::string> split(const std::string&s,char c) { std::vector<std::string> r; std::string t; for(char x:s) if(x==c) { r.push_back(t); t.clear(); } else t+=x; r.push_back(t); return r; }
static std::string slurp(const char*p) { std::ifstream i(p,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static void bad(const std::string&what,long long v,const std::string&m) { mon::violation(nm+"|"+what,nm+"|"+F+"|"+what+mon::fmt("|%lld",v),m); }
static double dv(const ref::Num&x) { return x.k==ref::NAN_?NAN:x.k==ref::INF?(x.neg?-INFINITY:INFINITY):ref::to_double(x); }
static std::string g(double d) { std::ostringstream o; o<<d; return o.str(); }
static bool has(char c) { return F.find(c)!=std::string::npos; }
static int64_t num(ref::Num x) { return ref::trunc(f,x); }
// the posits printed on the line of pattern v
static std::vector<std::pair<char,int64_t>> posits(int64_t v)
{
    std::vector<std::pair<char,int64_t>> r{{'x',v}}; ref::Num x=ref::decode(f,v); ref::Num one=ref::from_i64(1);
    if(has('I')) { int64_t i; if(x.k==ref::NAN_) i=v; else if(x.k==ref::INF) i=0; else if(x.k==ref::ZERO) i=ref::PINF(f); else i=num(ref::div(one,x)); r.push_back({'I',i}); }
    auto sc=[&](long k) { if(x.k!=ref::FIN) return v; return num(ref::shift(x,k)); };
    if(has('2')) r.push_back({'2',sc(1)});
    if(has('A')) r.push_back({'A',sc(-1)});
    return r;
}
static bool column(char c,int64_t v,const std::string&s,std::string&want)
{
    ref::Num x=ref::decode(f,v); bool fin=x.k==ref::FIN; uint64_t hm=HB==64?~0ull:(1ull<<HB)-1; std::vector<std::string> ok;
    switch(c) {
    case 'i': ok={std::to_string(v)}; break;
    case 'o': ok={std::to_string((uint64_t)v&hm)}; break;
    case 'b': ok={bin((uint64_t)v,f.N)}; break;
    case 'k': if(!fin) return true; ok={std::to_string(ref::fields(f,v).reg)}; break;
    case 'r': if(!fin) return true; ok={g(std::ldexp(1.0,ref::fields(f,v).reg*(1<<f.es)))}; break;
    case 'e': if(!fin) return true; ok={std::to_string(x.e)}; break;
    case 'v': ok={g(dv(x))}; break;
    case 'u': ok={upform(x,FB)}; break;
    case 'p': if(tab_) ok={"posit("+std::to_string((uint64_t)v&((1ull<<f.N)-1))+")"}; else ok={g(x.k==ref::FIN||x.k==ref::ZERO?(double)ref::to_float(x):dv(x))}; break;
    default: return true; }
    if(x.k==ref::NAN_&&(c=='v'||(c=='p'&&!tab_))) ok={"nan","-nan"};
    if(x.k==ref::INF&&f.spec==ref::WithInf) { if(c=='v'||(c=='p'&&!tab_)) ok={"inf","-inf"}; if(c=='u') ok={"up(+infinity)","up(-infinity)"}; } // one infinity: its sign is not significant
    want=ok[0]; for(auto&o:ok) if(s==o) return true; return false;
}
static const std::string COLS="iopbkreuv";
int main(int c,char**v)
{
    std::vector<char*> w{v[0]}; mon::init(1,w.data()); if(c<12) return 2;
    nm=v[1]; f=ref::PF{atoi(v[2]),atoi(v[3]),(ref::Spec)atoi(v[4])}; HB=atoi(v[5]); FB=atoi(v[6]); tab_=!atoi(v[7]); F=v[8]; std::string out=slurp(v[9]); int rc=atoi(v[11]);
    uint64_t hc=mon::hstr((nm+F).c_str()); mon::klass(nm); mon::klass("format "+F); mon::cur=mon::Cur{nm.c_str(),F.c_str(),0,0,0};
    if(rc) bad("exit",rc,"the tool ended with "+std::to_string(rc));
    std::string cols; for(char x:F) if(COLS.find(x)!=std::string::npos) cols+=x;
    std::vector<int64_t> seq; int64_t T=ref::TOP(f); if(has('U')) { for(int64_t i=0;i<-T;i++) seq.push_back(i); for(int64_t i=T;i<0;i++) seq.push_back(i); } else for(int64_t i=-ref::MAXPOS(f);i<=ref::MAXPOS(f);i++) seq.push_back(i);
    if(has('B')) {
        if(!out.empty()) bad("binary-text",0,"binary output also wrote text: "+out.substr(0,80));
        std::string b=slurp(v[10]); std::vector<double> d(b.size()/8); memcpy(d.data(),b.data(),d.size()*8); size_t per=0,k=0; for(char x:cols) (void)x,per++;
        size_t want=seq.size()*posits(seq[0]).size()*per; if(b.size()!=want*8) { bad("binary-size",(long long)b.size(),mon::fmt("expected %zu numbers, the file has %zu bytes",want,b.size())); return mon::finish(); }
        for(int64_t s:seq) for(auto&p:posits(s)) { ref::Num x=ref::decode(f,p.second); bool fin=x.k==ref::FIN;
            for(char q:cols) { double got=d[k++],e=0; bool judge=true; uint64_t hm=(1ull<<HB)-1;
                switch(q) { case 'i': e=(double)p.second; break; case 'o': e=(double)((uint64_t)p.second&hm); break; case 'v': case 'u': e=dv(x); break; case 'k': judge=fin; if(fin) e=ref::fields(f,p.second).reg; break; case 'r': judge=fin; if(fin) e=std::ldexp(1.0,ref::fields(f,p.second).reg*(1<<f.es)); break; case 'e': judge=fin; e=x.e; break; default: judge=false; }
                mon::seen(mon::hash3(hc,s,q*256+p.first),judge); if(!judge) continue; bool ok=std::isnan(e)?std::isnan(got):got==e||(std::isinf(e)&&std::isinf(got)&&f.spec==ref::WithInf);
                if(!ok) bad(std::string("binary ")+p.first+q,s,mon::fmt("expected %.17g got %.17g",e,got)); } }
        return mon::finish();
    }
    std::vector<std::string> L=split(out,'\n'); while(L.size()&&L.back().empty()) L.pop_back(); size_t i=0;
    if(!has('N')) { // overview
        std::map<std::string,std::string> m; std::string all; while(i<L.size()&&L[i].compare(0,8,"looping ")) { size_t q=L[i].find(':'); if(q!=std::string::npos) m[L[i].substr(0,q)]=L[i].substr(q+1); all+=L[i]+"\n"; i++; }
        auto is=[&](const char*k,long e) { mon::seen(mon::hash3(hc,mon::hstr(k),1),true); if(!m.count(k)||atol(m[k].c_str())!=e) bad(std::string("overview ")+k,e,"got '"+m[k]+"'"); };
        is("totalbits",f.N); is("exponent size bits",f.es); is("holding size bits",HB); is("fractiontype size bits",FB);
        auto val=[&](const char*k,double e) { mon::seen(mon::hash3(hc,mon::hstr(k),2),true); size_t q=all.find(k); std::string t; if(q!=std::string::npos) { q+=strlen(k); while(q<all.size()&&all[q]!=' '&&all[q]!='\n') t+=all[q++]; } if(t!=g(e)) bad(std::string("overview ")+k,0,"expected "+g(e)+" got '"+t+"'"); };
        val("half=",0.5); val("twice=",2); val("min=",dv(ref::decode(f,-ref::MAXPOS(f)))); val("max=",dv(ref::decode(f,ref::MAXPOS(f))));
        auto listed=[&](std::string t,int64_t e) { std::istringstream o(t); long long n=0; std::string b; o>>n>>b; return n==e&&b==bin((uint64_t)e,HB); }; // the pattern as a number and as bits of the holding type
        auto raw=[&](const char*k,int64_t e) { mon::seen(mon::hash3(hc,mon::hstr(k),3),true); if(!m.count(k)||!listed(m[k],e)) bad(std::string("overview ")+k,e,"got '"+m[k]+"'"); };
        if(f.spec==ref::WithNanInf) { raw("+infinity",ref::PINF(f)); raw("-infinity",ref::NINF(f)); }
        if(f.spec!=ref::WithInf) raw("nan",T); else { if(m.count("nan")) bad("overview nan",0,"a policy without NaN lists one"); }
        if(f.spec==ref::WithNan&&(m.count("+infinity")||m.count("-infinity")||m.count("infinity"))) bad("overview infinity",0,"a policy without infinities lists one");
        if(f.spec==ref::WithInf) { size_t q=all.find("\ninfinity "); mon::seen(mon::hash3(hc,9,3),true); if(q==std::string::npos||!listed(all.substr(q+10,all.find('\n',q+10)-q-10),T)) bad("overview infinity",T,"not listed"); }
        if(has('H')) { if(i!=L.size()) bad("head-only",0,"more than the overview"); return mon::finish(); }
    }
    if(i<L.size()&&!L[i].compare(0,8,"looping ")) i++; else bad("structure",0,"no loop line");
    if(i<L.size()) { auto h=split(L[i++],'\t'); mon::seen(mon::hash3(hc,1,4),true); if(h.size()!=cols.size()+1) bad("titles",(long long)h.size(),"titles and columns do not match: "+L[i-1]); std::set<std::string> u(h.begin(),h.end()); if(u.size()!=h.size()) bad("titles",0,"two columns of the same title: "+L[i-1]); }
    if(L.size()-i!=seq.size()) { bad("lines",(long long)(L.size()-i),mon::fmt("expected %zu lines got %zu",seq.size(),L.size()-i)); return mon::finish(); }
    for(int64_t s:seq) { auto t=split(L[i++],'\t'); auto ps=posits(s); if(t.size()!=1+ps.size()*cols.size()||!t[0].empty()) { bad("columns",s,"line: "+L[i-1]); continue; } size_t k=1;
        for(auto&p:ps) for(char q:cols) { std::string want; bool ok=column(q,p.second,t[k],want); mon::seen(mon::hash3(hc,s,q*256+p.first),ref::decode(f,s).k==ref::FIN); if(!ok) bad(std::string("column ")+p.first+q,s,"expected '"+want+"' got '"+t[k]+"'"); k++; }
        if(mon::want_sample()) mon::sample(nm+" "+F+" "+L[i-1]); }
    return mon::finish();
}
