#include "posit8.hpp"
namespace sc {
typedef int8_t B; static posit8 m(B v) { return posit8(posit8::DeepInit(),v); }
B add(B a,B b) { return (m(a)+m(b)).v; } B sub(B a,B b) { return (m(a)-m(b)).v; } B mul(B a,B b) { return (m(a)*m(b)).v; } B div(B a,B b) { return (m(a)/m(b)).v; } B inv(B a) { return m(a).inv().v; } B half(B a) { return m(a).half().v; } B twice(B a) { return m(a).twice().v; } B exp2(B a) { return m(a).exp2().v; } B square(B a) { return m(a).square().v; } B neg(B a) { return (-m(a)).v; }
float val(B a) { return (float)m(a); } bool isneg(B a) { return m(a).is_negative(); } bool isnan(B a) { return m(a).is_nan(); } bool isinf(B a) { return m(a).is_infinity(); } B fromf(float f) { return posit8(f).v; } B fromi(int i) { return posit8(i).v; } bool negexp(B a) { return m(a).has_neg_exponent(); }
}
