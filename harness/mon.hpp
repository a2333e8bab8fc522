// Monitor runtime: counts observed events, checks them online against an oracle, records
// violations with a replayable key, and dumps statistics for the evidence file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <csignal>
#include <unistd.h>

namespace mon {

struct Cur { const char *cfg; const char *op; long long a,b,c; };
extern Cur cur;                       // event in flight (for crash / hang reports)
extern unsigned long long events;     // observed events
void init(int argc,char**argv);
int finish();
uint64_t seed();
bool thorough();
long scale(long quick,long thorough_); // pick a case count
long divisor();                        // sanitizer builds run a thinned out workload (MON_DIV)
bool thin();                           // true when this case of an enumeration is left out because of MON_DIV
bool replaying();                      // a replay of a single event was requested
// record an event; nontrivial: false for identity-ish/special-only cases
void seen(uint64_t h,bool nontrivial);
void klass(const std::string &c);      // distinct behaviour class observed
void violation(const std::string &group,const std::string &key,const std::string &msg);
void sample(const std::string &s);     // keeps a few
bool want_sample();

inline uint64_t mix(uint64_t x) { x ^= x>>33; x*=0xff51afd7ed558ccdULL; x^=x>>33; x*=0xc4ceb9fe1a85ec53ULL; x^=x>>33; return x; }
inline uint64_t hash3(uint64_t a,uint64_t b,uint64_t c) { return mix(a*0x9e3779b97f4a7c15ULL + mix(b + mix(c+0x1234567))); }
uint64_t hstr(const char*s);

struct Rng { uint64_t s; explicit Rng(uint64_t x):s(x*0x9e3779b97f4a7c15ULL+0x632be59bd9b4e019ULL){}
  uint64_t next() { s+=0x9e3779b97f4a7c15ULL; return mix(s); }
  uint64_t below(uint64_t n) { return n? next()%n : 0; }
  int range(int lo,int hi) { return lo+(int)below((uint64_t)(hi-lo+1)); } };

std::string fmt(const char*f,...) __attribute__((format(printf,1,2)));
}
