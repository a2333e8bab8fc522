// prepared streams and the monitor of what printing leaves behind
#pragma once
#include "ref.hpp"
#include "mon.hpp"
#include <sstream>
#include <iomanip>
#include <locale>
struct Group: std::numpunct<char> { char do_thousands_sep() const override { return '_'; } std::string do_grouping() const override { return "\3"; } char do_decimal_point() const override { return ','; } };
struct State { std::ios_base::fmtflags fl; std::streamsize prec; char fill; std::ios_base::iostate st; };
static State state(std::ostream&o) { return State{o.flags(),o.precision(),o.fill(),o.rdstate()}; }
static bool same(const State&a,const State&b) { return a.fl==b.fl&&a.prec==b.prec&&a.fill==b.fill&&a.st==b.st; }
// format settings other than the base
struct Fmt { std::ios_base::fmtflags add; int prec; char fill; int width; bool loc; };
static Fmt rfmt(mon::Rng&r,bool plain)
{
    Fmt f{std::ios_base::fmtflags(),6,' ',0,false}; if(plain) return f;
    if(r.below(3)==0) f.add|=std::ios::showpos; if(r.below(3)==0) f.add|=std::ios::showbase; if(r.below(3)==0) f.add|=std::ios::uppercase; if(r.below(3)==0) f.add|=std::ios::showpoint; if(r.below(4)==0) f.add|=std::ios::boolalpha; if(r.below(4)==0) f.add|=std::ios::unitbuf; if(r.below(4)==0) f.add|=std::ios::skipws;
    switch(r.below(4)) { case 0: f.add|=std::ios::fixed; break; case 1: f.add|=std::ios::scientific; break; case 2: if(r.below(2)) f.add|=std::ios::fixed|std::ios::scientific; break; default:; }
    switch(r.below(4)) { case 0: f.add|=std::ios::left; break; case 1: f.add|=std::ios::right; break; case 2: f.add|=std::ios::internal; break; default:; }
    f.prec=r.range(0,20); f.fill="* 0x"[r.below(4)]; f.width=r.below(2)?0:r.range(1,40); f.loc=r.below(8)==0; return f;
}
static const std::locale &gl() { static std::locale l(std::locale::classic(),new Group); return l; }
static void set(std::ostream&o,const Fmt&f,std::ios_base::fmtflags base) { o.flags(f.add|base); o.precision(f.prec); o.fill(f.fill); o.width(f.width); if(f.loc) o.imbue(gl()); }
static std::string bin(uint64_t v,int n) { std::string s; for(int i=n-1;i>=0;i--) s+=((v>>i)&1)?'1':'0'; return s; }
static std::string upform(const ref::Num&x,int fb,bool signedinf=true)
{
    switch(x.k) { case ref::ZERO: return "up(0)"; case ref::NAN_: return "up(nan)"; case ref::INF: return x.neg&&signedinf?"up(-infinity)":"up(+infinity)"; default:; }
    uint64_t fr=(uint64_t)((x.m<<1)>>(128-fb));
    return mon::fmt("up(%c exp (dec) = %ld fraction (hex) = %llx (bin) = %s)",x.neg?'-':'+',(long)x.e,(unsigned long long)fr,bin(fr,fb).c_str());
}
static const char*bn(std::ios_base::fmtflags b) { return b==std::ios::dec?"dec":b==std::ios::hex?"hex":b==std::ios::oct?"oct":"no base"; }
struct Out
{
    std::string cfg; uint64_t hc; Out(const std::string&n):cfg(n),hc(mon::hstr(n.c_str())){ mon::klass(n); }
    // wr writes the value, ex writes what is expected on an identically prepared stream (or null: only the state is judged)
    template <class W,class E> void run(int64_t raw,std::ios_base::fmtflags base,const Fmt&f,W wr,E ex,bool text,const char*before="")
    {
        std::string op=std::string("print ")+bn(base); mon::cur=mon::Cur{cfg.c_str(),bn(base),raw,f.prec,(long long)f.add};
        std::ostringstream o,e; o<<before; e<<before; set(o,f,base); set(e,f,base); State s=state(o);
        std::ostream*back=wr(o); State t=state(o);
        bool ok=same(s,t)&&back==&o&&o.width()==0&&(!f.loc||o.getloc()==gl());
        mon::seen(mon::hash3(hc^mon::mix(raw),(uint64_t)base*4096+f.prec,(uint64_t)f.add+f.width*77),true);
        if(!ok) mon::violation(cfg+"|state|"+bn(base),mon::fmt("%s|state|%s|%lld|%x|%d|%d",cfg.c_str(),bn(base),(long long)raw,(int)f.add,f.prec,f.width),mon::fmt("flags %x -> %x precision %d -> %d fill %d -> %d iostate %d -> %d width left %d",(int)s.fl,(int)t.fl,(int)s.prec,(int)t.prec,s.fill,t.fill,(int)s.st,(int)t.st,(int)o.width()));
        if(text) { ex(e); mon::klass(std::string("text ")+bn(base)+(f.add?" with flags":"")); if(o.str()!=e.str()) mon::violation(cfg+"|"+op,mon::fmt("%s|%s|%lld|%x|%d|%d",cfg.c_str(),op.c_str(),(long long)raw,(int)f.add,f.prec,f.width),"expected '"+e.str()+"' got '"+o.str()+"'"); }
        if(mon::want_sample()) mon::sample(cfg+" "+op+" "+mon::fmt("%lld",(long long)raw)+" -> "+o.str());
    }
};
template <class P> void tab(const char*nm,int N,const char*word="posit")
{
    Out o(nm); mon::Rng r(mon::hash3(mon::seed(),o.hc,1)); const int64_t top=-(((int64_t)1)<<(N-1));
    for(int64_t v=top;v<-top;v++) for(int k=0;k<3;k++) { P p(typename P::DeepInit(),(typename P::value_t)v); Fmt m=rfmt(r,k==0); unsigned u=(unsigned)v&((1u<<N)-1); auto b=k==0?std::ios::dec:k==1?std::ios::hex:(r.below(2)?std::ios::oct:std::ios::dec);
        o.run(v,b,m,[&](std::ostream&s){ return &(s<<p); },[&](std::ostream&s){ s<<(std::string(word)+"(")<<u<<")"; },true); }
}
