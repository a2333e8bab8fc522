#include <sys/time.h>
#include "mon.hpp"
#include <cstdarg>
#include <set>
#include <mutex>
#include <atomic>
namespace mon {
Cur cur{"","",0,0,0};
unsigned long long events=0;
static unsigned long long nontriv=0, distinct=0;
static uint64_t gseed=1; static bool gthorough=false; static long gdiv=1;
static std::vector<uint64_t> bits; static const unsigned LG=26;
static std::map<std::string,unsigned long long> groups;      // violation counts
static std::map<std::string,unsigned long long> classes;
static std::vector<std::string> samples; static unsigned long long nviol=0;
static std::recursive_mutex mx;
uint64_t seed() { return gseed; }
bool thorough() { return gthorough; }
long scale(long q,long t) { long n=(gthorough?t:q)/gdiv; return n>0?n:1; }
long divisor() { return gdiv; }
bool thin() { static uint64_t n=0; return gdiv>1 && mix(++n+gseed*1000003)%gdiv; }
bool replaying() { return false; }
uint64_t hstr(const char*s) { uint64_t h=1469598103934665603ULL; while(*s) { h^=(unsigned char)*s++; h*=1099511628211ULL; } return h; }
std::string fmt(const char*f,...) { char b[1024]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b; }
void seen(uint64_t h,bool nt)
{
    events++; if(!nt) return; nontriv++;
    uint64_t i=h & ((1ULL<<LG)-1); uint64_t m=1ULL<<(i&63);
    if(!(bits[i>>6]&m)) { bits[i>>6]|=m; distinct++; }
}
void klass(const std::string&c) { classes[c]++; }
bool want_sample() { return samples.size()<6 || (samples.size()<12 && (events & (events-1))==0); }
void sample(const std::string&s) { if(samples.size()<12) samples.push_back(s); }
void violation(const std::string&g,const std::string&key,const std::string&msg)
{
    std::lock_guard<std::recursive_mutex> l(mx);
    nviol++; unsigned long long n=++groups[g];
    if(n<=8) { printf("V\t%s\t%s\t%s\n",g.c_str(),key.c_str(),msg.c_str()); fflush(stdout); }
}
static void esc(std::string&o,const std::string&s) { o+='"'; for(char c:s) { if(c=='"'||c=='\\') { o+='\\'; o+=c; } else if((unsigned char)c<32) o+=' '; else o+=c; } o+='"'; }
static void dump()
{
    std::string o="S\t{";
    o+=fmt("\"events\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"violations\":%llu,",events,nontriv,distinct,nviol);
    o+="\"classes\":{"; bool f=true; for(auto&x:classes) { if(!f) o+=","; f=false; esc(o,x.first); o+=fmt(":%llu",x.second); }
    o+="},\"groups\":{"; f=true; for(auto&x:groups) { if(!f) o+=","; f=false; esc(o,x.first); o+=fmt(":%llu",x.second); }
    o+="},\"samples\":["; f=true; for(auto&x:samples) { if(!f) o+=","; f=false; esc(o,x); }
    o+="]}\n"; fputs(o.c_str(),stdout); fflush(stdout);
}
static void onsig(int s)
{
    // report the event in flight; the trace is lost after this
    char b[512]; int n=snprintf(b,sizeof b,"V\tcrash|%s|%s\tcrash|%s|%s|%lld|%lld|%lld\tsignal %d during this event\n",cur.cfg,cur.op,cur.cfg,cur.op,cur.a,cur.b,cur.c,s);
    if(write(1,b,n)<0) _exit(4);
    dump(); _exit(3);
}
static unsigned long long lastev=~0ULL; static int idle=0;
static void onalarm(int)
{
    if(lastev==events) { if(++idle>=3) { char b[512]; int n=snprintf(b,sizeof b,"V\thang|%s|%s\thang|%s|%s|%lld|%lld|%lld\tno progress for 60 s of CPU during this event\n",cur.cfg,cur.op,cur.cfg,cur.op,cur.a,cur.b,cur.c); if(write(1,b,n)<0) _exit(4); dump(); _exit(3);} }
    else idle=0;
    lastev=events;
}
void init(int,char**)
{
    if(const char*s=getenv("VERIF_SEED")) gseed=strtoull(s,0,10);
    if(const char*s=getenv("VERIF_TIER")) gthorough=!strcmp(s,"thorough");
    if(const char*s=getenv("MON_DIV")) gdiv=atol(s)>0?atol(s):1;
    bits.assign((1u<<LG)/64,0);
    if(!getenv("MON_NOSIG")) { static char as[1<<16]; stack_t st{}; st.ss_sp=as; st.ss_size=sizeof as; sigaltstack(&st,0); struct sigaction sa{}; sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK; sigaction(SIGSEGV,&sa,0); signal(SIGFPE,onsig); signal(SIGABRT,onsig); signal(SIGILL,onsig); signal(SIGBUS,onsig); }
    signal(SIGVTALRM,onalarm); itimerval t{{20,0},{20,0}}; setitimer(ITIMER_VIRTUAL,&t,0);
}
int finish() { dump(); return nviol?1:0; }
}
