// Independent reference model of posits and of binary floating formats.
// Deliberately naive: bit strings, 128-bit significands with a sticky flag, no code shared
// with the library under test.
#pragma once
#include <cstdint>
#include <string>
typedef unsigned __int128 u128;
typedef __int128 i128;

namespace ref {

enum Kind { ZERO, FIN, INF, NAN_ };
// finite value = (-1)^neg * (m / 2^127) * 2^e , top bit of m set ; sticky => "plus a bit" (away from 0, below 1ulp of m)
struct Num { Kind k = ZERO; bool neg = false; long e = 0; u128 m = 0; bool st = false; };

enum Spec { WithNan = 0, WithInf = 1, WithNanInf = 2 };
struct PF { int N; int es; Spec spec; };   // posit format
struct FF { int ebits; int fbits; bool denorm; };  // IEEE-like format 1/ebits/fbits

// helper values
inline int64_t TOP(const PF&f) { return -(int64_t)(((uint64_t)1) << (f.N-1)); }
inline int64_t MAXPOS(const PF&f) { return -(TOP(f)+1) - (f.spec==WithNanInf?1:0); }
inline int64_t PINF(const PF&f) { return f.spec==WithNanInf ? -(TOP(f)+1) : TOP(f); }
inline int64_t NINF(const PF&f) { return f.spec==WithNanInf ? TOP(f)+1 : TOP(f); }
inline bool canonical(const PF&f, int64_t v) { return v >= TOP(f) && v <= -(TOP(f)+1); }

Num decode(const PF &f, int64_t v);
// fields: regime, size of the regime field, exponent bits really present, exponent value, fraction bits present, fraction value
struct Fields { int reg, rs, es, exp, fs; uint64_t frac; };
Fields fields(const PF&f, int64_t v);   // v finite non zero

struct Enc { int64_t lo, hi; };  // lo = truncation toward zero, hi = next away from zero when inexact, both saturated
Enc encode(const PF &f, const Num &x);   // any kind
int64_t trunc(const PF &f, const Num &x);

Num from_double(double d);
Num from_float(float d);
Num from_i64(int64_t i);
Num from_fixed(int64_t i, int fracbits);
Num decode_float(const FF&f, uint64_t bits);
uint64_t encode_float(const FF&f, const Num &x);  // trunc toward zero, saturating to max finite, unsigned zero result sign handled by caller
double to_double(const Num &x);   // trunc toward zero, saturating
float to_float(const Num &x);
int64_t to_fixed(const Num&x, int totalbits, int fracbits); // trunc toward zero, saturating

Num neg(Num a);
Num add(const Num&a, const Num&b);
Num mul(const Num&a, const Num&b);
Num div(const Num&a, const Num&b);
Num shift(const Num&a, long k);  // a*2^k
int cmp(const Num&a, const Num&b); // finite/zero/inf (signed), -1 0 1
std::string str(const Num&a);
std::string pstr(const PF&f, int64_t v);
}
