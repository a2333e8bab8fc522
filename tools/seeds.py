S=[]
def s(**k): S.append(k)
PH='include/posit.h'; UH='include/unpacked.h'
HEAD='''
#include "posit.h"
#include <cstdio>
#include <cmath>
#include <cstring>
static int bad=0;
#define CHECK(c) do { if(!(c)) { bad=1; printf("wrong at line %d: %s\\n",__LINE__,#c); } } while(0)
'''
s(id='s01_analyze_fields',prop='C01',edits=[(PH,'i.es = totalbits-rs-1 < esbits ? totalbits-rs-1 : esbits;','i.es = totalbits-rs < esbits ? totalbits-rs-1 : esbits;')],
 needs='analyze() of a pattern whose regime leaves room for all exponent bits but one',
 what='the diagnostic analysis reports one exponent bit too many and a negative number of fraction bits',
 demo=HEAD+'''
template <class P> void all(int n) { for(long v=-(1L<<(n-1))+1; v<(1L<<(n-1)); v++) { if(!v) continue; auto i=P(typename P::DeepInit(),v).analyze(); if(i.fs<0||i.es<0||1+i.rs+i.es+i.fs!=n) { bad=1; printf("%ld: rs %d es %d fs %d\\n",v,i.rs,i.es,i.fs); } } }
int main() { all<Posit<int8_t,8,2,uint16_t,PositSpec::WithNan>>(8); all<Posit<int16_t,12,3,uint16_t,PositSpec::WithInf>>(12); return bad; }
''')
s(id='s02_double_narrowed',prop='C02',edits=[(UH,'return unpack_xfloat<double_trait>(d);','return sizeof(FT) < 4 ? unpack_xfloat<single_trait>((float)d) : unpack_xfloat<double_trait>(d); // a short fraction does not need the whole double')],
 needs='a posit with fractions of at most 16 bits, built from a double just below a representable value, or one out of the range of single precision',
 what='doubles are rounded to nearest single precision before they are truncated to the posit, and beyond the single range they become infinities or zero',
 demo=HEAD+'''
int main() { using Q=Posit<int16_t,16,1,uint16_t,PositSpec::WithNan>; using R=Posit<int16_t,16,3,uint16_t,PositSpec::WithInf>; 
 CHECK(Q(1.9999999999).v==Q(2.0).v-1); CHECK(Q(-1.9999999999).v==-(Q(2.0).v-1)); CHECK(R(0.4999999999999).v==R(0.5).v-1); CHECK(R(1e300).v==R(1e37).v); return bad; }
''')
s(id='s03_double_via_float',prop='C03',edits=[(PH,'''	constexpr operator float() const { return unpack(); }
	constexpr operator double() const { return unpack(); }
#endif
	constexpr operator int() const { return unpack(); }

	/// 1/(exp(-x)+1)''','''	constexpr operator float() const { return unpack(); }
	constexpr operator double() const { return (float)unpack(); }
#endif
	constexpr operator int() const { return unpack(); }

	/// 1/(exp(-x)+1)''')],
 needs='a posit whose value needs more than 24 bits of fraction or lies beyond the single precision range',
 what='conversion to double goes through single precision, so the trip through double does not return the same posit',
 demo=HEAD+'''
int main() { using P=Posit<int32_t,32,2,uint64_t,PositSpec::WithNan>; unsigned x=12345; for(int i=0;i<20000;i++) { x=x*1664525u+1013904223u; int32_t v=(int32_t)x; if(v==(int32_t)0x80000000) continue; P p(P::DeepInit(),v); CHECK(P((double)p).v==v); if(bad) break; } return bad; }
''')
s(id='s04_negligible_addend',prop='C04',edits=[(PH,'''        return a.iszero() ? b : b.iszero() ? a: pack_posit<T,totalbits,esbits,FT,positspec>(a.unpack()+b.unpack());
    }

	Posit& operator+=(''','''        return a.iszero() || negligible(a,b) ? b : b.iszero() || negligible(b,a) ? a: pack_posit<T,totalbits,esbits,FT,positspec>(a.unpack()+b.unpack());
    }

	/// true when x lies below the resolution of y: no need to align the fractions of wide posits
	static CONSTEXPR14 bool negligible(const Posit & x, const Posit & y)
	{
		return totalbits > 24 && x.unpack().isRegular() && y.unpack().isRegular() && y.unpack().exponent - x.unpack().exponent >= totalbits-3-esbits;
	}

	Posit& operator+=(''')],
 needs='two posits of more than 24 bits whose exponents differ by exactly the longest fraction length, the larger one having the shortest regime',
 what='an addend of one unit in the last place is dropped',
 demo=HEAD+'''
int main() { using P=Posit<int32_t,32,2,uint64_t,PositSpec::WithNan>; 
 for(int v: {0x40000001,0x40000000,0x43fffff0,0x3c000005,0x38000001}) { P a(P::DeepInit(),v), n=a.next(); P ulp((double)n-(double)a); CHECK(((a+ulp).v)==n.v); CHECK((n-ulp).v==a.v); CHECK((ulp+a).v==n.v); CHECK((-a-ulp).v==-n.v); } return bad; }
''')
s(id='s05_mul_low_partial',prop='C05',edits=[('include/typehelpers.hpp','		return ((typename nextinttype<T>::type)a)*b;','''		// high, cross and low partial products for the widest type: cheaper than a full 128 bit multiplication
		return sizeof(T) < 8 ? ((typename nextinttype<T>::type)a)*b :
			((((typename nextinttype<T>::type)(a >> sizeof(T)*4)*(b >> sizeof(T)*4)) << sizeof(T)*8)
			+ (((typename nextinttype<T>::type)(a >> sizeof(T)*4)*(T)(b & (((T)1 << sizeof(T)*4)-1))) << sizeof(T)*4)
			+ (((typename nextinttype<T>::type)(T)(a & (((T)1 << sizeof(T)*4)-1))*(b >> sizeof(T)*4)) << sizeof(T)*4));''')],
 needs='64 bit fractions with both low halves in use, and a product next to a representable value',
 what='the carry of the lowest partial product is lost and the product is one unit too small',
 demo=HEAD+'''
int main() { using P=Posit<int64_t,60,1,uint64_t,PositSpec::WithNan>; uint64_t x=88172645463325252ull; int diff=0;
 for(int i=0;i<200000;i++) { auto r=[&]{ x^=x<<13; x^=x>>7; x^=x<<17; return x; };
  uint64_t m1=(1ull<<56)|(r()&((1ull<<56)-1)), m2=(1ull<<56)|(r()&((1ull<<56)-1)); // 1.f with 56 bits of fraction, exponent 0
  // pattern of 1.f with es=1: sign 0, regime 10, exponent 0, 56 bits of fraction
  P a(P::DeepInit(),(int64_t)((1ull<<58)|(m1&((1ull<<56)-1)))), b(P::DeepInit(),(int64_t)((1ull<<58)|(m2&((1ull<<56)-1))));
  unsigned __int128 p=(unsigned __int128)m1*m2; int e=0; if(p>>113) { e=1; p>>=1; } uint64_t f=(uint64_t)(p>>56)&((1ull<<56)-1);
  int64_t exp=(int64_t)((1ull<<58)|((uint64_t)e<<56)|f); P c=a*b; if(c.v!=exp) diff++; }
 printf("%d wrong products\\n",diff); return diff!=0; }
''')
s(id='s06_divide_assign_reciprocal',prop='C06',edits=[(PH,'    Posit & operator/= (const Posit & a) { auto x = *this / a; v = x.v; return *this; }','    Posit & operator/= (const Posit & a) { return *this *= a.inv(); }')],
 needs='compound division with a divisor whose reciprocal is not exact, or by zero',
 what='x /= y multiplies by the truncated reciprocal: two roundings, and 3/3 is not 1',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,16,1,uint16_t,PositSpec::WithNan>; for(int i=1;i<200;i++) for(int j=1;j<40;j++) { P a(i),b(j),q=a; q/=b; if(q.v!=(a/b).v) bad=1; } P x(3); x/=x; CHECK(x.v==P::one().v); return bad; }
''')
s(id='s07_half_wrong_exponent',prop='C07',edits=[(PH,'			q.exp = PT::POSIT_REG_SCALE-1; // maximum exponent','			q.exp = PT::POSIT_ESP_SIZE; // maximum exponent')],
 needs='half() of a posit with two or more exponent bits whose exponent field is zero',
 what='the borrow from the regime puts the number of exponent bits in the exponent field instead of the largest exponent',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,16,2,uint16_t,PositSpec::WithNan>; for(int i=1;i<64;i++) { P a(i); CHECK((float)a.half()==(float)a/2); if(bad) break; } return bad; }
''')
s(id='s08_mul_assign_zero',prop='C08',edits=[(PH,'''		*this = pack_posit<T,totalbits,esbits,FT,positspec>(unpack()*b.unpack());
		return *this;''','''		if(iszero() || b.iszero())
			v = 0; // nothing to multiply
		else
			*this = pack_posit<T,totalbits,esbits,FT,positspec>(unpack()*b.unpack());
		return *this;''')],
 needs='compound multiplication of zero with NaN or infinity',
 what='NaN *= 0 and infinity *= 0 give 0 instead of NaN',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,16,1,uint16_t,PositSpec::WithNan>; using Q=Posit<int16_t,16,1,uint16_t,PositSpec::WithNanInf>;
 P a=P::nan(); a*=P::zero(); CHECK(a.isNaN()); a=P::zero(); a*=P::nan(); CHECK(a.isNaN()); Q b=Q::ninf(); b*=Q::zero(); CHECK(b.isNaN()); b=Q::nan(); b*=Q::zero(); CHECK(b.isNaN()); return bad; }
''')
s(id='s09_overflow_to_infinity',prop='C08',edits=[(PH,'return positspec_ == PositSpec::WithNanInf ? POSIT_REG_SCALE * (totalbits - 3) : POSIT_REG_SCALE * (totalbits - 2); }','return POSIT_REG_SCALE * (totalbits - 2); }')],
 needs='the policy with NaN and signed infinities, and a finite operation that overflows',
 what='finite arithmetic overflows to infinity instead of the largest finite posit',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,16,1,uint16_t,PositSpec::WithNanInf>; P m=P::max(); CHECK(!(m*m).isinfinity()); CHECK((m*m).v==m.v); CHECK((m+m).v==m.v); CHECK((m/P::min()).v==m.v); CHECK(P(1e30).v==m.v); CHECK((-m*m).v==P::lowest().v); return bad; }
''')
s(id='s10_ge_nan_right',prop='C09',edits=[(PH,'friend constexpr bool operator >= (const Posit & a, const Posit & u)  { return withnan && (a.isNaN()||u.isNaN())?false :a.v >= u.v; }','friend constexpr bool operator >= (const Posit & a, const Posit & u)  { return withnan && a.isNaN()?false :a.v >= u.v; }')],
 needs='x >= NaN with NaN on the right',what='every number compares greater or equal to NaN',
 demo=HEAD+'''
int main() { using P=Posit<int32_t,32,2,uint32_t,PositSpec::WithNan>; P n=P::nan(); for(int i=-3;i<4;i++) { CHECK(!(P(i)>=n)); CHECK(!(n>=P(i))); } CHECK(!(n>=n)); return bad; }
''')
s(id='s11_prev_of_nan',prop='C10',edits=[(PH,'v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }','v > PT::POSIT_MAXPOS || v == PT::POSIT_MINNEG ? v : v-1); }')],
 needs='prev() of NaN (or of the negative infinity)',what='the neighbour of NaN is a pattern outside the format (a number)',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,12,1,uint16_t,PositSpec::WithNan>; using Q=Posit<int8_t,8,0,uint8_t,PositSpec::WithNanInf>; CHECK(P::nan().prev().isNaN()); CHECK(Q::nan().prev().isNaN()); CHECK(Q::ninf().prev().v==Q::ninf().v); CHECK(P::lowest().prev().v==P::lowest().v); return bad; }
''')
s(id='s12_posit10_last_column',prop='C11',edits=[('src/posit10_gen.cpp','		for(int16_t s2 = -512 ; s2 < 512; s2++)','		for(int16_t s2 = -512 ; s2 < 511; s2++)')],
 needs='the largest posit as right operand of a 10 bit tabulated operation',what='the last column of the tables is never computed: x + max, x * max and x / max are zero',
 tables=['posit10'],demo='''
#include "posit10.hpp"
#include <cstdio>
int main() { int bad=0; for(int v=-511;v<512;v++) { posit10 a(posit10::DeepInit(),v), m=posit10::max(); posit10::FPT x=a.as_posit(), y=m.as_posit(); if((a*m).v!=(x*y).v||(a/m).v!=(x/y).v) { bad=1; printf("%d\\n",v); break; } } return bad; }
''')
s(id='s13_top_binade_saturates',prop='C12',edits=[(UH,'if (fexp > Trait::exponent_max) // this is RAW exponent max','if (fexp >= Trait::exponent_max) // this is RAW exponent max')],
 needs='a number in the highest binade of the target floating point format',what='numbers in the highest binade turn into the largest finite number',
 demo=HEAD+'''
int main() { for(float f: {1.5f*powf(2,127),-1.25f*powf(2,127),powf(2,127)}) { Unpacked<uint32_t,int> u(f); CHECK((float)u==f); } Unpacked<uint64_t,int> d(1.5*pow(2,1023)); CHECK((double)d==1.5*pow(2,1023)); 
 Unpacked<uint32_t,int> h(40000.0f); CHECK(h.pack_xfloati<half_trait>()==0x78e2); return bad; }
''')
s(id='s14_saturate_minus_max',prop='C13',edits=[(UH,'''    return negativeSign ? std::numeric_limits<typename Trait::value_t>::lowest()
                        : std::numeric_limits<typename Trait::value_t>::max();''','''    const typename Trait::value_t top = std::numeric_limits<typename Trait::value_t>::max();
    return negativeSign ? -top : top;''')],
 needs='a negative number at or below the lowest value of the integer or fixed point type',what='negative overflow saturates one above the lowest value, and the exact lowest value is not converted exactly',
 demo=HEAD+'''
int main() { using P=Posit<int32_t,32,2,uint32_t,PositSpec::WithNan>; CHECK((int)P(-2147483648.0)==(int)0x80000000); CHECK((int)P(-1e12)==(int)0x80000000); CHECK((int)P(1e12)==0x7fffffff); return bad; }
''')
s(id='s15_infinity_divided_sign',prop='C14',edits=[(UH,'''    default: // case UnpackedDualSel(Infinity,Regular):
      return (a.negativeSign ^ b.negativeSign) ? ninfinity() : pinfinity();''','''    default: // case UnpackedDualSel(Infinity,Regular):
      return a;''')],
 needs='an infinity divided by a negative number',what='the sign of the divisor is ignored',
 demo=HEAD+'''
int main() { using U=Unpacked<uint32_t,int>; CHECK(U::pinfinity()/U(-3)==U::ninfinity()); CHECK(U::ninfinity()/U(-3)==U::pinfinity()); CHECK(U::pinfinity()/U(3)==U::pinfinity()); return bad; }
''')
s(id='s16_emulated_half_single',prop='C15',edits=[('include/anyfloat.hpp','anyfloat_emu half() const { return anyfloat_emu(0.5*(FFT)*this); }','anyfloat_emu half() const { return anyfloat_emu(0.5f*(float)*this); }')],
 needs='half() of an emulated double with more than 24 significant bits or outside the single precision range',what='the emulated double is halved in single precision',
 demo='''
#include "anyfloat.hpp"
#include <cstdio>
int main() { int bad=0; for(double d: {1.0/3,1e300,-1e-200,123456789.123}) { binary64_emu x(d); if((double)x.half()!=d/2) { bad=1; printf("%g\\n",d); } } return bad; }
''')
s(id='s17_half_by_exponent',prop='C16',edits=[('include/float16native32.hpp','	friend float16n32 half(float16n32 a) { return a/two(); }','	friend float16n32 half(float16n32 a) { return (a.raw() & 0x7C00) != 0 ? float16n32(false,a.raw()-0x0400) : a/two(); } // one less in the exponent field')],
 needs='half() of a number in the lowest normal binade, or of infinity or NaN',what='the hidden one is lost when the result is subnormal, and infinity becomes finite',
 demo='''
#include "float16native32.hpp"
#include <cstdio>
int main() { int bad=0; for(int r: {0x0400,0x0555,0x07ff,0x0800,0x8401,0x3c00,0x7c00,0xfc00}) { float16n32 x(false,(uint16_t)r); float e=(float)float16n32((float)x/2), g=(float)half(x); if(e!=g) { bad=1; printf("%04x %g %g\\n",r,e,g); } } return bad; }
''')
s(id='s18_dot_rounds_each_step',prop='C17',edits=[(PH,'		    	v0 += (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack();','		    	v0 = Posit(v0 + (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack()).unpack();')],
 needs='a dot product of three or more terms with a fraction type wider than the posit',what='every partial sum is rounded to the posit',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,16,1,uint64_t,PositSpec::WithNan>; P a[9],b[9]; a[0]=P(256); b[0]=P(1); for(int i=1;i<9;i++) { a[i]=P(0.25f); b[i]=P(0.5f); } CHECK((float)P::dot(a,b,9)==257.0f); return bad; }
''')
s(id='s19_dot_reads_empty',prop='C18',edits=[(PH,'''    	if(N < 1)
    		return Posit::zero(); 
    	else
    	{
	    	auto v0 = (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack(); // first
	    	for(int i = 1; i < N; i++)
		    	v0 += (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack();
	    	return Posit(v0);
	    }''','''    	auto v0 = UnpackedT::zero();
    	Posit x(*begin1++), y(*begin2++); // the next pair is loaded while the current one is multiplied
    	for(int i = 0; i < N; i++)
    	{
    		auto w = x.unpack()*y.unpack();
    		x = Posit(*begin1++);
    		y = Posit(*begin2++);
    		v0 += w;
    	}
    	return Posit(v0);''')],
 needs='arrays of exactly the length of the dot product (or empty ones)',what='one element past the end of both arrays is read',
 flags='-std=gnu++14 -O0 -fsanitize=address -g1',demo='''
#include "posit.h"
#include <vector>
#include <cstdio>
int main() { using P=Posit<int16_t,16,1,uint32_t,PositSpec::WithNan>; P*a=new P[3],*b=new P[3]; for(int i=0;i<3;i++) { a[i]=P(i+1); b[i]=P(2); } P r=P::dot(a,b,3); printf("%g\\n",(float)r); int bad=(float)r!=12; delete[] a; delete[] b; return bad; }
''')
s(id='s20_clz64_boundary',prop='C18',edits=[('include/bithippop.hpp','	return (v >> 32 != 0 ? __builtin_clz(v >> 32) : 32 + __builtin_clz(v));','	return (v >> 31 != 0 ? __builtin_clz(v >> 32) : 32 + __builtin_clz(v));')],
 needs='the leading bit of a 64 bit number is bit 31; on processors with lzcnt the result is right by accident',what='__builtin_clz is called with zero, which is undefined',
 cxx='clang++',flags='-std=gnu++14 -O0 -fsanitize=undefined -fno-sanitize-recover=all -g1',demo=HEAD+'''
int main() { volatile uint64_t x=0x80000000ull; CHECK(findbitleftmostC((uint64_t)x)==32); x=0xffffffffull; CHECK(findbitleftmostC((uint64_t)x)==32); x=0x100000000ull; CHECK(findbitleftmostC((uint64_t)x)==31); return bad; }
''')
s(id='s21_delta_by_square',prop='C19',edits=[(PH,'	constexpr Posit urDeltaPs() const { return (*this)*urOneMinus(); }','	constexpr Posit urDeltaPs() const { return (*this)-(*this)*(*this); }')],
 needs='a number of the unit range whose square is not representable',what='x(1-x) is computed as x-x*x with two roundings',
 demo=HEAD+'''
int main() { using P=Posit<int8_t,8,0,uint16_t,PositSpec::WithNan>; for(int v=0;v<=64;v++) { P p(P::DeepInit(),v); double x=(double)p; CHECK(p.urDeltaPs().v==P(x*(1-x)).v); } return bad; }
''')
s(id='s22_positf_int_native',prop='C20',edits=[('include/positf.h','CONSTEXPR14 explicit PositF(int f) { v = pack_posit(UnpackedT((double)f)).v; }','CONSTEXPR14 explicit PositF(int f) { v = pack_posit(UnpackedT((FFT)f)).v; }')],
 needs='a posit backed by single precision and an integer of more than 24 significant bits',what='the integer is rounded to nearest by the conversion to float instead of truncated',
 demo='''
#include "positf.h"
#include <cstdio>
int main() { using P=PositF<int16_t,16,1,float,PositSpec::WithNan>; using G=Posit<int16_t,16,1,uint64_t,PositSpec::WithNan>; int bad=0; for(int i: {33554431,-33554431,67108863,2147483647,268435455}) if(P(i).v!=G(i).v) { bad=1; printf("%d\\n",i); } return bad; }
''')
s(id='s23_unmasked_alignment',prop='C21',edits=[('include/bithippop.hpp','		return ((B)bitset_getT(value, 0, abits)) << (bbits - abits);','		return ((B)value) << (bbits - abits);')],
 needs='an aligning cast of a value with bits above the field, to a type wider than the target field',what='the bits above the field are not removed',
 demo='''
#include <type_traits>
#include "bithippop.hpp"
#include <cstdio>
int main() { cast_right_to_left<uint16_t,5,uint32_t,12> c; uint32_t r=c((uint16_t)0xffe3); printf("%x\\n",r); return r!=(0x03u<<7); }
''')
s(id='s24_cxx20_countl_zero',prop='C22',edits=[('include/bithippop.hpp','	return __builtin_clz((uint32_t)input) - 16;','''#if __cplusplus >= 202002L
	return std::countl_zero(input) - 16;
#else
	return __builtin_clz((uint32_t)input) - 16;
#endif'''),('include/bithippop.hpp','#include <bitset>\n','#include <bitset>\n#if __cplusplus >= 202002L\n#include <bit>\n#endif\n')],
 needs='a build as C++20 and 16 bit fractions',what='the leading bit search of 16 bit numbers is off by 16 in C++20 builds only',
 script='''for std in gnu++14 gnu++17 gnu++20; do
 g++ -std=$std -O1 -w -I"$repo/include" "$here/demo.cpp" -o "$d/demo" || exit 2
 "$d/demo" > "$d/out.$std" || exit 1
 cmp "$d/out.gnu++14" "$d/out.$std" || exit 1
done
exit 0''',demo='''
#include "posit.h"
#include <cstdio>
int main() { using P=Posit<int16_t,16,1,uint16_t,PositSpec::WithNan>; for(int i=-40;i<40;i++) for(int j=1;j<40;j++) printf("%d ",(int)(P(i)/P(j)+P(j)*P(i)-P(7)).v); return 0; }
''')
s(id='s25_lazy_half_cache',prop='C23',edits=[('src/posit12.cpp','	return (posit12)(as_posit()/(FPT)2);\n','''	// the division is slow: remember the results
	static int16_t cache[4096];
	static bool known[4096];
	if(!known[uu()])
	{
		cache[uu()] = (as_posit()/(FPT)2).v;
		known[uu()] = true;
	}
	return posit12(DeepInit(),cache[uu()]);
''')],
 needs='two threads calling half() of a 12 bit tabulated posit for the first time',what='a lazily filled cache without synchronisation: a data race, results may be zero',
 tables=['posit12'],flags='-std=gnu++14 -O1 -g1 -fsanitize=thread -pthread',demo='''
#include "posit12.hpp"
#include <thread>
#include <vector>
#include <cstdio>
int main() { std::vector<std::thread> t; int bad[4]={0,0,0,0}; for(int k=0;k<4;k++) t.emplace_back([k,&bad]{ for(int v=-2047;v<2048;v++) { posit12 p(posit12::DeepInit(),v); if(p.half().v!=(p.as_posit()/posit12::FPT(2)).v) bad[k]=1; } }); for(auto&x:t) x.join(); return bad[0]|bad[1]|bad[2]|bad[3]; }
''')
s(id='s26_stream_flags_cleared',prop='C24',edits=[(PH,'	ons.setf(std::ios::dec, std::ios::basefield);\n','	ons.flags(std::ios::dec);\n')],
 needs='a stream with fixed, scientific, showpos or other flags set',what='printing a posit ignores and clears the other formatting flags of the stream',
 demo=HEAD+'''
#include <sstream>
#include <iomanip>
int main() { using P=Posit<int16_t,16,1,uint16_t,PositSpec::WithNan>; std::ostringstream o; o<<std::fixed<<std::showpos<<std::setprecision(3)<<P(1.5f)<<" "<<1.5f; CHECK(o.str()=="+1.500 +1.500"); return bad; }
''')
s(id='s27_lookup_unrolled',prop='C25',edits=[('include/simdposit8.hpp','''		for(int i = 0; i < 32; i++)
			odata[i] = tab[idata1[i]*256+idata2[i]];''','''		for(int i = 0; i < 32; i += 2)
		{
			odata[i] = tab[idata1[i]*256+idata2[i]];
			odata[i+1] = tab[idata1[i+1]*256+idata2[i]];
		}''')],
 needs='a right operand whose neighbouring lanes differ',what='odd lanes use the right operand of the lane before',
 tables=['posit8'],srcs=['simdposit8.cpp'],flags='-std=gnu++14 -O1 -mavx2',demo='''
#include "simdposit8.hpp"
#include <cstdio>
int main() { alignas(32) uint8_t a[32],b[32],r[32]; for(int i=0;i<32;i++) { a[i]=i*7+3; b[i]=i*5+1; } simd_posit8_32 x(_mm256_load_si256((__m256i*)a)), y(_mm256_load_si256((__m256i*)b)); _mm256_store_si256((__m256i*)r,(x*y).uu()); int bad=0; for(int i=0;i<32;i++) if(r[i]!=posit8ns::opmul[a[i]*256+b[i]]) { bad=1; printf("lane %d\\n",i); } return bad; }
''')
s(id='s28_sqrt_single',prop='C26',edits=[(PH,'''		using PP=Posit<T,totalbits,esbits,FT,positspec>;
		return PP(std::sqrt((double)z));''','''		using PP=Posit<T,totalbits,esbits,FT,positspec>;
		using FL=typename std::conditional<(totalbits <= 32),float,double>::type; // enough digits
		return PP(std::sqrt((FL)z));''')],
 needs='a 26 to 32 bit posit whose root needs more than 24 bits, or a value outside the single precision range',what='square roots of 32 bit posits are computed in single precision',
 demo=HEAD+'''
int main() { using P=Posit<int32_t,32,2,uint64_t,PositSpec::WithNan>; unsigned x=1; for(int i=0;i<1000;i++) { x=x*1664525u+1013904223u; P p(P::DeepInit(),(int32_t)(x&0x7fffffff)|1); P r=std::sqrt(p), e(std::sqrt((double)p)); if(r.v-e.v>1||e.v-r.v>1) bad=1; } return bad; }
''')
# ---- second batch
BH='include/bithippop.hpp'
s(id='s29_regime_length',prop='C01',edits=[(PH,'int rs =  (int)POSIT_MAXREGIME_BITS < index+1 ? POSIT_MAXREGIME_BITS : index+1; //std::min((int)POSIT_MAXREGIME_BITS,index+1);','int rs = index+1;')],
 needs='the analysis of a number whose regime reaches the last bit, so that there is no bit that ends it',what='the regime is reported one bit longer than there are bits: the field lengths do not add up to the posit, the fraction gets a negative length',
 demo=HEAD+'''
template <class P> void all(int n) { for(long v=-(1L<<(n-1))+1; v<(1L<<(n-1)); v++) { if(!v) continue; auto i=P(typename P::DeepInit(),v).analyze(); if(i.fs<0||i.es<0||i.rs>n-1||1+i.rs+i.es+i.fs!=n) { bad=1; printf("%ld: rs %d es %d fs %d\\n",v,i.rs,i.es,i.fs); } } }
int main() { all<Posit<int16_t,12,1,uint16_t,PositSpec::WithNan>>(12); all<Posit<int16_t,9,2,uint32_t,PositSpec::WithInf>>(9); return bad; }
''')
s(id='s30_clamp_narrow',prop='C02',edits=[(PH,'auto eexponent = clamp<decltype(x.exponent)>(x.exponent,PT::minexponent(),PT::maxexponent()); // no overflow','auto eexponent = clamp<typename PT::POSIT_STYPE>(x.exponent,PT::minexponent(),PT::maxexponent()); // no overflow')],
 needs='an 8 bit posit built from a number of at least 2^128, or below 2^-128',what='the binary exponent is narrowed to the holder before it is clamped: huge numbers wrap around to small ones',
 demo=HEAD+'''
int main() { using P=Posit<int8_t,8,0,uint8_t,PositSpec::WithNan>; using Q=Posit<int8_t,8,1,uint16_t,PositSpec::WithNan>; for(int e=20;e<1020;e++) { CHECK(P(std::ldexp(1.5,e)).v==127); CHECK(Q(-std::ldexp(1.0,e)).v==-127); CHECK(P(std::ldexp(1.25,-e)).v==1); if(bad) break; } return bad; }
''')
s(id='s31_int_via_float',prop='C03',edits=[(PH,'	CONSTEXPR14 Posit(int i): Posit(UnpackedT(i)) {}','	CONSTEXPR14 Posit(int i): Posit(UnpackedT((float)i)) {}')],
 needs='an integer of more than 24 significant bits and a posit wide enough to hold it',what='integers go through single precision and are rounded',
 demo=HEAD+'''
int main() { using P=Posit<int64_t,60,2,uint64_t,PositSpec::WithNan>; for(int i: {1,-7,16777217,-16777219,123456789,2147483647}) CHECK((int)P(i)==i); return bad; }
''')
s(id='s32_distance_in_a_byte',prop='C04',edits=[(UH,'      auto dir = a.exponent - b.exponent;','      const signed char dir = a.exponent - b.exponent; // distance between the exponents')],
 needs='addends whose binary exponents differ by 128 or more: posits of at least 32 bits, or with many exponent bits, at opposite ends of the range',what='the distance between the exponents wraps around, the sum is garbage',
 demo=HEAD+'''
int main() { using P=Posit<int32_t,32,2,uint64_t,PositSpec::WithNan>; P big(1e33), small(1e-33); CHECK((big+small).v==big.v); CHECK((small+big).v==big.v); CHECK((small-big).v<-big.v+2); using Q=Posit<int16_t,16,4,uint32_t,PositSpec::WithInf>; CHECK((Q(1e30)+Q(1e-30)).v==Q(1e30).v); return bad; }
''')
s(id='s33_power_of_two_factor',prop='C05',edits=[(UH,'''      POSIT_LUTYPE afrac = FT_leftmost_bit | (a.fraction >> 1);
      POSIT_LUTYPE bfrac = FT_leftmost_bit | (b.fraction >> 1);
      auto frac = nextintop<FT>::extramul(afrac,bfrac) >> FT_bits;''','''      if (a.fraction == 0 && a.exponent < 0) // scaling down by a power of two
        return Unpacked(b.exponent + a.exponent, b.fraction, b.negativeSign);
      POSIT_LUTYPE afrac = FT_leftmost_bit | (a.fraction >> 1);
      POSIT_LUTYPE bfrac = FT_leftmost_bit | (b.fraction >> 1);
      const auto frac = nextintop<FT>::extramul(afrac,bfrac) >> FT_bits;''')],
 needs='a left factor that is the opposite of a power of two below one',what='the sign of the left factor is ignored',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,16,1,uint32_t,PositSpec::WithNan>; CHECK((P(-0.5)*P(3)).v==P(-1.5).v); CHECK((P(-0.25)*P(-3)).v==P(0.75).v); CHECK((P(3)*P(-0.5)).v==P(-1.5).v); CHECK((P(0.5)*P(3)).v==P(1.5).v); return bad; }
''')
s(id='s34_long_double_quotient',prop='C06',edits=[('include/typehelpers.hpp','''	{
		return (a/b);
	}

};
#ifdef _MSVC_VER''','''	{
		// the processor has no 128 by 64 bit division we can use: the x87 unit is quicker than the library function
		return sizeof(T) == 8 ? (typename nextinttype<T>::type)((long double)a/b) : (a/b);
	}

};
#ifdef _MSVC_VER''')],
 needs='a 64 bit posit and a quotient just below a representable number',what='the 64 bit quotient is rounded to nearest instead of truncated',
 demo=HEAD+'''
int main() { using P=Posit<int64_t,60,2,uint64_t,PositSpec::WithNan>; uint64_t x=88172645463325252ull; auto rnd=[&]{ x^=x<<13; x^=x>>7; x^=x<<17; return x; };
 for(int i=0;i<400000;i++) { P b(P::DeepInit(),0x400000000000000ll+(int64_t)(rnd()>>7)), m(P::DeepInit(),0x400000000000000ll+(int64_t)(rnd()>>7)); P a=b*m; auto ua=a.unpack(),ub=b.unpack(); unsigned __int128 A=((unsigned __int128)1<<64)|ua.fraction, B=((unsigned __int128)1<<64)|ub.fraction;
  int e=ua.exponent-ub.exponent; if(A<B) { A<<=1; e--; } unsigned __int128 r=A-B; uint64_t q=0; for(int k=0;k<64;k++) { r<<=1; q<<=1; if(r>=B) { r-=B; q|=1; } }
  P want(P::UnpackedT(e,q,false)); if((a/b).v!=want.v) { bad=1; printf("%llx / %llx\\n",(long long)a.v,(long long)b.v); break; } } return bad; }
''')
s(id='s35_inverse_int_fraction',prop='C07',edits=[(PH,'''	auto u = unpack_low();
	if(u.type == UnpackedT::Regular && u.fraction == 0)
	{
		// 2^''','''	auto u = unpack_low();
	const uint32_t low = u.fraction;
	if(u.type == UnpackedT::Regular && low == 0)
	{
		// 2^'''),(PH,'		// becomes -R scale + (scale-E)\n		if(u.exp == 0)','		if(low == u.exp)')],
 needs='a 64 bit posit whose fraction has only zeros in its lower half, such as 1.5',what='the number is taken for a power of two: the reciprocal ignores the fraction',
 demo=HEAD+'''
int main() { using P=Posit<int64_t,60,2,uint64_t,PositSpec::WithNan>; for(double d: {1.5,3.0,-0.75,5.0,1000.0,1.0/3}) CHECK((~P(d)).v==(P(1)/P(d)).v); return bad; }
''')
s(id='s36_opposites_cancel',prop='C08',edits=[(PH,'        return a.iszero() ? b : b.iszero() ? a: pack_posit<T,totalbits,esbits,FT,positspec>(a.unpack()+b.unpack());','        return a.iszero() ? b : b.iszero() ? a: a.v == -b.v ? zero() : pack_posit<T,totalbits,esbits,FT,positspec>(a.unpack()+b.unpack());')],
 needs='the difference of two equal infinities in the policy with signed infinities, or NaN minus NaN in a holder as wide as int',what='infinity minus infinity is 0 instead of NaN',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,16,1,uint32_t,PositSpec::WithNanInf>; CHECK((P::pinf()-P::pinf()).isNaN()); CHECK((P::ninf()+P::pinf()).isNaN()); CHECK((P::pinf()+P::pinf()).v==P::pinf().v); CHECK((P(3)-P(3)).v==0); return bad; }
''')
s(id='s37_ne_of_nan',prop='C09',edits=[(PH,'    friend constexpr bool operator != (const Posit & a, const Posit & u)  { return !(a == u); }','    friend constexpr bool operator != (const Posit & a, const Posit & u)  { return withnan && (a.isNaN()||u.isNaN())?false :a.v != u.v; }')],
 needs='a comparison with NaN',what='NaN is not different from anything, itself included',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,12,1,uint16_t,PositSpec::WithNan>; CHECK(P::nan()!=P::nan()); CHECK(P::nan()!=P(1)); CHECK(P(2)!=P(1)); CHECK(!(P(2)!=P(2))); return bad; }
''')
s(id='s38_max_exponent',prop='C10',edits=[(PH,'	  static constexpr int  max_exponent = PT::maxexponent();','	  static constexpr int  max_exponent = PT::POSIT_REG_SCALE*(totalbits-2);')],
 needs='numeric_limits of a posit with signed infinities',what='max_exponent is that of the infinity instead of the largest finite number',
 demo=HEAD+'''
template <class P> void one() { CHECK(std::numeric_limits<P>::max_exponent==P::max().unpack().exponent); CHECK(std::numeric_limits<P>::min_exponent==P::min().unpack().exponent); }
int main() { one<Posit<int16_t,16,1,uint32_t,PositSpec::WithNanInf>>(); one<Posit<int16_t,16,1,uint32_t,PositSpec::WithNan>>(); one<Posit<int8_t,8,0,uint32_t,PositSpec::WithInf>>(); return bad; }
''')
s(id='s39_twice_by_shift',prop='C11',edits=[('src/posit8.cpp','''	return (posit8)(as_posit()*(FPT)2);
''','''	const int a = v < 0 ? -v : v;
	if(POSIT8_ES == 0 && a < 0x20) // below one half the fields move up by one
		return posit8(DeepInit(),(int8_t)(v << 1));
	if(POSIT8_ES == 0 && a > 0x60 && a < 0x80) // from two on the regime gets one more one
		return posit8(DeepInit(),(int8_t)(v < 0 ? -(0x40+((a+1)>>1)) : (0x40+((a+1)>>1))));
	return (posit8)(as_posit()*(FPT)2);
''')],
 needs='twice of an 8 bit tabulated posit above two whose lowest bit is lost',what='the double is rounded away from zero instead of truncated',
 tables=['posit8'],demo='''
#include "posit8.hpp"
#include <cstdio>
#include <cmath>
int main() { using X=Posit<int8_t,8,0,uint32_t,PositSpec::WithNan>; int bad=0; for(int v=-127;v<128;v++) { posit8 p(posit8::DeepInit(),v); X e(2*(double)X(X::DeepInit(),v)); if(p.twice().v!=e.v) { bad=1; printf("%d: %d %d\\n",v,p.twice().v,e.v); } } return bad; }
''')
s(id='s40_top_subnormals',prop='C12',edits=[(UH,'  else if (fexp < 1)\n','  else if (fexp < 0)\n')],
 needs='a number in the binade just below the smallest normal number of the format',what='the hidden bit of the largest subnormals is lost',
 demo=HEAD+'''
int main() { using U=Unpacked<uint32_t,int>; for(int k=0;k<1024;k++) { double d=std::ldexp(k,-24); CHECK(U(d).pack_xfloati<half_trait>()==(uint16_t)k); if(bad) break; } float f=1e-38f; float g=(float)U(f); CHECK(f==g); return bad; }
''')
s(id='s41_fixed_int_shift',prop='C13',edits=[(UH,'    ST r = (ST(1) << (exponent + Trait::fraction_bits)) |','    ST r = (1 << (exponent + Trait::fraction_bits)) |')],
 needs='a 64 bit fixed point format and a number that needs more than 31 bits',what='the leading one is shifted as an int and lost',
 demo=HEAD+'''
int main() { using U=Unpacked<uint64_t,int>; using F=fixedtrait<int64_t,64,32>; for(double d: {1.5,-1.25,3.0,100000.5,-2000000000.75,0.1}) CHECK(U(d).pack_xfixed<F>()==(int64_t)(d*4294967296.0)); return bad; }
''')
s(id='s42_subtract_in_place',prop='C14',edits=[(UH,'    *this += (-a);\n    return *this;','    // a-b is -(-a+b): no copy of the operand needed\n    negativeSign = !negativeSign;\n    *this += a;\n    negativeSign = type != Zero && type != NaN && !negativeSign;\n    return *this;')],
 needs='an unpacked number subtracted from itself by its own compound operator',what='the operand changes its sign together with the result: x-=x is 2x',
 demo=HEAD+'''
int main() { using U=Unpacked<uint32_t,int>; U x(1.5f), y(0.25f); x-=y; CHECK((float)x==1.25f); x-=x; CHECK(x.isZero()); y-=U(0.25f); CHECK(y.isZero()); U i=U::pinfinity(); i-=U(1.0f); CHECK(i==U::pinfinity()); return bad; }
''')
s(id='s43_le_of_nan',prop='C15',edits=[('include/anyfloat.hpp','const anyfloat_emu & u)  { return (FFT)a  <= (FFT)u; }','const anyfloat_emu & u)  { return !((FFT)a  > (FFT)u); }')],
 needs='a comparison with NaN',what='NaN is less than or equal to everything',
 demo='''
#include "anyfloat.hpp"
#include <cstdio>
int main() { using X=binary16_emu; int bad=X::nan()<=X::one()||X::one()<=X::nan()||!(X::one()<=X::two())||!(X::one()<=X::one())||X::two()<=X::one(); return bad; }
''')
s(id='s44_muladd_rounds_twice',prop='C16',edits=[('include/float16native32.hpp','{ return float16n32((impl_t)a*(impl_t)b+(impl_t)c); }','{ return a*b+c; }')],
 needs='a product that is not representable in half precision',what='mulAdd rounds the product to half precision before it adds',
 demo='''
#include "float16native32.hpp"
#include <cstdio>
int main() { int bad=0; for(int i=0x3c00;i<0x4400;i+=7) for(int j=0x3c01;j<0x3d00;j+=5) { float16n32 a(false,i), b(false,j), c(false,0xbc00); float16n32 e((float)a*(float)b+(float)c); if(mulAdd(a,b,c).raw()!=e.raw()) { bad=1; } } return bad; }
''')
s(id='s45_lazy_sum_rounds',prop='C17',edits=[(PH,'''	friend constexpr Posit operator+(const Posit & a, const PositMul & b)
	{
		return fma(b.a,b.b,a);''','''	friend constexpr Posit operator+(const Posit & a, const PositMul & b)
	{
		return a + b.asPosit();''')],
 needs='a build with lazy products, a number plus a product that is not representable',what='the product is rounded before the sum',
 demo='''
#define POSITMUL
'''+HEAD+'''
int main() { using P=Posit<int16_t,16,1,uint64_t,PositSpec::WithNan>; for(int i=0x4001;i<0x4800;i+=13) for(int j=0x4003;j<0x4700;j+=31) { P a(P::DeepInit(),i), b(P::DeepInit(),j), c(P::DeepInit(),-0x4000); P e(c), r=c+a*b; double x=(double)a*(double)b-1.0; CHECK(r.v==P(x).v); if(bad) return bad; } return bad; }
''')
s(id='s46_negative_shift',prop='C18',edits=[(PH,'    	return (((exponenttype)reg) * (1<<POSIT_ESP_SIZE))|exp;','    	return (((exponenttype)reg) << POSIT_ESP_SIZE)|exp;')],
 needs='any number below one, in a dialect before C++20',what='a negative regime is shifted left, which is undefined before C++20; every compiler here gives the expected result',
 flags='-std=gnu++14 -O0 -fsanitize=undefined -fno-sanitize-recover=all -g1',demo=HEAD+'''
int main() { using P=Posit<int16_t,16,1,uint32_t,PositSpec::WithNan>; volatile int16_t v=0x1234; P p(P::DeepInit(),v); CHECK(p.unpack().exponent==P((double)p).unpack().exponent); return bad; }
''')
s(id='s47_unit_range_of_zero',prop='C19',edits=[(PH,'	constexpr bool isUnitRange() const { return v >= 0 && v <= PT::POSIT_ONE; };','	constexpr bool isUnitRange() const { return isone() || (v >= 0 && unpack().exponent < 0); };')],
 needs='zero',what='zero is not in the unit range any more',
 demo=HEAD+'''
int main() { using P=Posit<int8_t,8,0,uint16_t,PositSpec::WithNan>; for(int v=-127;v<128;v++) { P p(P::DeepInit(),v); double d=(double)p; CHECK(p.isUnitRange()==(d>=0&&d<=1)); } return bad; }
''')
s(id='s48_positf_int_cast',prop='C20',edits=[('include/positf.h','	constexpr operator int() const { return unpack(); }','	constexpr operator int() const { return (int)(FFT)unpack(); }')],
 needs='a float backed posit of 2^31 or more converted to int, or infinity or NaN',what='the native conversion is undefined there: the result does not saturate',
 demo='''
#include "positf.h"
#include <cstdio>
int main() { using P=PositF<int16_t,16,2,float,PositSpec::WithNan>; int bad=0; if((int)P(1e12f)!=2147483647) bad=1; if((int)P(3.75f)!=3) bad=1; if((int)P(-1e12f)!=-2147483647-1) bad=1; if((int)P::nan()!=0) bad=1; return bad; }
''')
s(id='s49_bmi_32bit_extract',prop='C21',edits=[(BH,'	return _bextr_u64(input, offset, size);\n}\n//#endif\n\ntemplate <int offset, int size>\nuint32_t bitset_gethwT(uint32_t input)','	return _bextr_u32((uint32_t)(input >> offset), 0, size); // the short form is enough after the shift\n}\n//#endif\n\ntemplate <int offset, int size>\nuint32_t bitset_gethwT(uint32_t input)')],
 needs='a build with the bit manipulation instructions and a field of more than 32 bits: the fraction of a double',what='the upper bits of the field are lost',
 demo='''
#include <type_traits>
#include "bithippop.hpp"
#include <cstdio>
int main() { volatile uint64_t x=0xfedcba9876543210ull; uint64_t y=x; uint64_t a=bitset_gethwT<4,44>(y), b=bitset_gethwT<0,52>(y), c=bitset_gethwT<52,11>(y); return a!=((y>>4)&0xfffffffffffull)||b!=(y&0xfffffffffffffull)||c!=((y>>52)&0x7ff); }
''')
s(id='s50_clz_by_fpu',prop='C22',edits=[(BH,'	return (v >> 32 != 0 ? __builtin_clz(v >> 32) : 32 + __builtin_clz(v));','''#ifdef __LZCNT__
	return (v >> 32 != 0 ? __builtin_clz(v >> 32) : 32 + __builtin_clz(v));
#else
	return v >= 18446744073709550592ull ? 0 : 63-__builtin_ilogb((double)v); // no leading zero count: the exponent of the double tells
#endif''')],
 needs='a build for a processor without lzcnt and a 64 bit fraction with more than 53 leading ones below a power of two',what='the conversion to double rounds up to the next power of two, so the leading bit search is off by one in these builds only',
 script='''for m in -march=native -march=x86-64; do
 g++ -std=gnu++14 -O1 $m -w -I"$repo/include" "$here/demo.cpp" -o "$d/demo" || exit 2
 "$d/demo" > "$d/out.$m" || exit 1
 cmp "$d/out.-march=native" "$d/out.$m" || exit 1
done
exit 0''',demo='''
#include "posit.h"
#include <cstdio>
int main() { for(int k=1;k<64;k++) { printf("%d ",findbitleftmostC((uint64_t)((1ull<<k)-1))); } using U=Unpacked<uint64_t,int>; for(int k=1;k<12;k++) { U a(0,~0ull,false), b(-1-k,~0ull,true); U r=a+b; printf("%d %llx ",(int)r.exponent,(unsigned long long)r.fraction); } return 0; }
''')
s(id='s51_simd_static_buffers',prop='C23',edits=[('include/simdposit8.hpp','''		alignas(__m256i) uint8_t idata1[32];
		alignas(__m256i) uint8_t idata2[32];
		alignas(__m256i) uint8_t odata[32];
''','''		// static: no need to align the stack at every call
		alignas(__m256i) static uint8_t idata1[32];
		alignas(__m256i) static uint8_t idata2[32];
		alignas(__m256i) static uint8_t odata[32];
''')],
 needs='two threads doing arithmetic with vector posits at the same time',what='the threads share the buffers of the lookup: results are mixed up',
 tables=['posit8'],srcs=['simdposit8.cpp'],flags='-std=gnu++14 -O1 -g1 -mavx2 -pthread -fsanitize=thread',demo='''
#include "simdposit8.hpp"
#include <thread>
#include <vector>
#include <cstdio>
int main() { std::vector<std::thread> t; int bad[4]={0,0,0,0}; for(int k=0;k<4;k++) t.emplace_back([k,&bad]{ alignas(32) uint8_t a[32],r[32]; for(int n=0;n<20000;n++) { for(int i=0;i<32;i++) a[i]=i*7+k*13+n; simd_posit8_32 x(_mm256_load_si256((__m256i*)a)); _mm256_store_si256((__m256i*)r,(x*x).uu()); for(int i=0;i<32;i++) if(r[i]!=posit8ns::opmul[a[i]*257]) bad[k]=1; } }); for(auto&x:t) x.join(); return bad[0]|bad[1]|bad[2]|bad[3]; }
''')
s(id='s52_printing_scratch',prop='C23',edits=[('src/posit10.cpp','	ons << "posit(" << p.uu() << ")" ;','	static unsigned int pattern;\n	pattern = p.uu();\n	ons << "posit(" << pattern << ")" ;')],
 needs='two threads printing 10 bit tabulated posits, each to a stream of its own',what='the pattern to print is kept in a variable shared by all threads',
 tables=['posit10'],flags='-std=gnu++14 -O1 -g1 -fsanitize=thread -pthread',demo='''
#include "posit10.hpp"
#include <thread>
#include <vector>
#include <sstream>
int main() { std::vector<std::thread> t; int bad[4]={0,0,0,0}; for(int k=0;k<4;k++) t.emplace_back([k,&bad]{ for(int n=0;n<3000;n++) { posit10 p(posit10::DeepInit(),(int16_t)((n+k*100)%512)); std::ostringstream o; o<<p; if(o.str()!="posit("+std::to_string(p.uu())+")") bad[k]=1; } }); for(auto&x:t) x.join(); return bad[0]|bad[1]|bad[2]|bad[3]; }
''')
s(id='s53_stream_precision',prop='C24',edits=[(PH,'		ons << (float)o;\n','		if(totalbits > 20)\n			ons.precision(9); // enough to tell the neighbours apart\n		ons << (float)o;\n')],
 needs='a posit of more than 20 bits printed to a stream with another precision',what='printing changes the precision of the stream for everything printed later',
 demo=HEAD+'''
#include <sstream>
int main() { using P=Posit<int32_t,32,2,uint32_t,PositSpec::WithNan>; std::ostringstream o; o<<P(1.5f)<<" "<<1.0/3; CHECK(o.str()=="1.5 0.333333"); return bad; }
''')
s(id='s54_simd_sign_by_words',prop='C25',edits=[('include/simdposit8.hpp','	cmpresult is_negative() const { return (_mm256_cmpgt_epi8(_mm256_set1_epi8(0),v)); }','	cmpresult is_negative() const { return _mm256_srai_epi16(v,15); } // spreads the sign')],
 needs='two neighbouring lanes of different sign',what='even lanes get the sign of their neighbour: there is no shift of bytes',
 tables=['posit8'],srcs=['simdposit8.cpp'],flags='-std=gnu++14 -O1 -mavx2',demo='''
#include "simdposit8.hpp"
#include <cstdio>
int main() { alignas(32) uint8_t a[32],r[32]; for(int i=0;i<32;i++) a[i]=i*73+3; simd_posit8_32 x(_mm256_load_si256((__m256i*)a)); _mm256_store_si256((__m256i*)r,x.is_negative()); int bad=0; for(int i=0;i<32;i++) if(r[i]!=((int8_t)a[i]<0?255:0)) bad=1; return bad; }
''')
s(id='s55_double_via_single_fraction',prop='C26',edits=[(UH,'    return unpack_xfloat<double_trait>(d);','    return FT_bits == 32 && exponent_fits(d) ? unpack_xfloat<single_trait>((float)d) : unpack_xfloat<double_trait>(d); // single precision has a native unpacking'),
 (UH,'  CONSTEXPR14 Unpacked &unpack_double(double d)','  /// in the range of the normal numbers of single precision\n  static bool exponent_fits(double d) { return std::fabs(d) > 1e-30 && std::fabs(d) < 1e30; }\n  CONSTEXPR14 Unpacked &unpack_double(double d)')],
 needs='a posit of about 32 bits with 32 bit fractions, close to one',what='the root is rounded to 24 bits: it is off by several units in the last place',
 demo=HEAD+'''
int main() { using P=Posit<int32_t,32,2,uint32_t,PositSpec::WithNan>; using W=Posit<int32_t,32,2,uint64_t,PositSpec::WithNan>; unsigned x=1; for(int i=0;i<1000;i++) { x=x*1664525u+1013904223u; P p(P::DeepInit(),(int32_t)(0x30000000+(x>>4))); P r=std::sqrt(p); W e(std::sqrt((double)W(W::DeepInit(),p.v))); if(r.v-e.v>1||e.v-r.v>1) bad=1; } return bad; }
''')
# third batch
s(id='s56_lt_by_difference',prop='C09',edits=[(PH,'operator < (const Posit & a, const Posit & u)  { return withnan && (a.isNaN()||u.isNaN())?false :a.v < u.v;; }','operator < (const Posit & a, const Posit & u)  { return withnan && (a.isNaN()||u.isNaN())?false :(int)(a.v - u.v) < 0; }')],
 needs='two 64 bit posits whose patterns are more than 2^31 apart',what='the difference of the patterns is narrowed to an int: the order is that of the low half',
 demo=HEAD+'''
int main() { using P=Posit<int64_t,48,2,uint64_t,PositSpec::WithNan>; for(double a: {-5.0,-1.0,-1e-3,0.0,0.3,1.0,1.5,7.0}) for(double b: {-5.0,-1.0,-1e-3,0.0,0.3,1.0,1.5,7.0}) { CHECK((P(a)<P(b))==(a<b)); CHECK((P(a)>P(b))==(a>b)); } return bad; }
''')
s(id='s57_infinity_sign_lost',prop='C08',edits=[(PH,'return UnpackedLow(x.type,x.negativeSign);','return UnpackedLow(x.type); // no fields')],
 needs='an operation with negative infinity as result, in the policy with signed infinities',what='minus infinity turns into plus infinity',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,12,2,uint16_t,PositSpec::WithNanInf>; CHECK((P::ninf()+P(1)).v==P::ninf().v); CHECK((P(-1)/P::zero()).v==P::ninf().v); CHECK(P(-INFINITY).v==P::ninf().v); CHECK((P::inf()*P(-2)).v==P::ninf().v); CHECK((P::inf()*P(2)).v==P::inf().v); return bad; }
''')
s(id='s58_twice_into_infinity',prop='C07',edits=[(PH,'if(q.regime >= PT::maxexponent()/PT::POSIT_REG_SCALE)','if(q.regime >= totalbits-2)')],
 needs='twice() of one of the largest posits in the policy with NaN and signed infinities',what='the double does not saturate but becomes the pattern of infinity',
 demo=HEAD+'''
int main() { using P=Posit<int8_t,8,0,uint16_t,PositSpec::WithNanInf>; CHECK(P::max().twice().v==P::max().v); CHECK(P::lowest().twice().v==P::lowest().v); using Q=Posit<int16_t,16,1,uint32_t,PositSpec::WithNanInf>; CHECK(Q::max().twice().v==Q::max().v); CHECK(Q::lowest().twice().v==Q::lowest().v); return bad; }
''')
s(id='s59_nan_payload_truncated',prop='C12',edits=[(UH,'    if (rawfraction == 0)\n    {\n      type = Infinity;','    if (fraction == 0)\n    {\n      type = Infinity;')],
 needs='a NaN whose payload lies in the low bits only, decoded to a fraction type narrower than the format',what='the NaN is decoded as infinity',
 demo=HEAD+'''
int main() { uint64_t i=0x7ff0000000000001ull; CHECK((Unpacked<uint32_t,int>::make_floati<double_trait>(i).isNaN())); CHECK((Unpacked<uint16_t,int>::make_floati<single_trait>(0xff800001u).isNaN())); CHECK((Unpacked<uint64_t,int>::make_floati<double_trait>(i).isNaN())); CHECK((Unpacked<uint8_t,int>::make_floati<single_trait>(0x7f800000u).isInfinity())); return bad; }
''')
s(id='s60_int_top_bit',prop='C13',edits=[(UH,'if (exponent >= intbits - 1) // the top bit is the sign','if (exponent >= intbits) // beyond the top bit')],
 needs='a number of magnitude 2^31 up to 2^32 converted to an int',what='it wraps around instead of saturating',
 demo=HEAD+'''
int main() { using P=Posit<int32_t,32,3,uint64_t,PositSpec::WithNan>; CHECK((int)P(2147483648.0)==2147483647); CHECK((int)P(3e9)==2147483647); CHECK((int)P(-3e9)==-2147483647-1); CHECK((int)P(-2147483648.0)==-2147483647-1); CHECK((int)P(5e9)==2147483647); return bad; }
''')
s(id='s61_normalise_in_one_shift',prop='C14',edits=[(UH,'(fraction << k) << 1, negativeSign)','(FT)(fraction << (k + 1)), negativeSign)')],
 needs='a difference that leaves only the last bit of the aligned fractions, in 32 or 64 bit fractions',what='a shift by the width of the type, which the processor turns into no shift: the result has a fraction it should not have',
 demo=HEAD+'''
int main() { using U=Unpacked<uint32_t,int>; volatile uint32_t z=4; U a(0,z,false), b(0,0,true); U r=a+b; CHECK(r.fraction==0); CHECK(r.exponent==-30); using V=Unpacked<uint64_t,int>; V c(5,(uint64_t)z,false), d(5,0,true); V q=c+d; CHECK(q.fraction==0); CHECK(q.exponent==5-62); return bad; }
''')
s(id='s62_fma_zero_factor',prop='C08',edits=[(PH,'		return pack_posit<T,totalbits,esbits,FT,positspec>(a.unpack()*b.unpack()+c.unpack());\n	}\n\n	CONSTEXPR14 Posit & operator*=','		if(a.iszero() || b.iszero())\n			return c; // nothing to add\n		return pack_posit<T,totalbits,esbits,FT,positspec>(a.unpack()*b.unpack()+c.unpack());\n	}\n\n	CONSTEXPR14 Posit & operator*=')],
 needs='fma of zero and NaN or infinity with a number',what='the undefined product is ignored',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,16,1,uint32_t,PositSpec::WithNanInf>; CHECK(fma(P::zero(),P::nan(),P(1)).isNaN()); CHECK(fma(P::inf(),P::zero(),P(1)).isNaN()); CHECK(fma(P::zero(),P(3),P(1)).v==P(1).v); using Q=Posit<int8_t,8,0,uint16_t,PositSpec::WithInf>; CHECK(fma(Q::zero(),Q::inf(),Q(1)).isinfinity()); return bad; }
''')
s(id='s63_sigmoid_of_wide_holder',prop='C19',edits=[(PH,'constexpr Posit pseudosigmoid() const { return Posit(DeepInit(),((typename PT::POSIT_UTYPE)(v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 2); };','constexpr Posit pseudosigmoid() const { return Posit(DeepInit(),(typename PT::POSIT_UTYPE)(v ^ PT::POSIT_SIGNBIT) >> 2); };')],
 needs='the sigmoid of a negative posit whose holder is wider than the posit',what='the sign extension is shifted into the result',
 demo=HEAD+'''
template <class P> void all(int n) { for(int v=-(1<<(n-1))+1;v<(1<<(n-1));v++) { auto r=P(typename P::DeepInit(),v).pseudosigmoid(); if((double)r<0||(double)r>1) { bad=1; printf("%d: %g\\n",v,(double)r); return; } } }
int main() { all<Posit<int8_t,8,0,uint16_t,PositSpec::WithNan>>(8); all<Posit<int16_t,12,0,uint16_t,PositSpec::WithNan>>(12); all<Posit<int32_t,16,0,uint32_t,PositSpec::WithInf>>(16); return bad; }
''')
s(id='s64_dot_static_sum',prop='C23',edits=[(PH,"	    	auto v0 = (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack(); // first","	    	static UnpackedT v0; // the running sum\n	    	v0 = (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack(); // first"),
  (PH,'static CONSTEXPR14 Posit dot(It1 begin1, It2 begin2, int N)','static Posit dot(It1 begin1, It2 begin2, int N)')],
 needs='two threads computing dot products of the same type at the same time',what='both add to the same sum',flags='-std=gnu++14 -O1 -g1 -fsanitize=thread -pthread',
 demo='''
#include "posit.h"
#include <thread>
#include <vector>
int main() { using P=Posit<int32_t,32,2,uint64_t,PositSpec::WithNan>; std::vector<std::thread> t; int bad[4]={0,0,0,0}; for(int k=0;k<4;k++) t.emplace_back([k,&bad]{ std::vector<P> a(64,P(k+1)), b(64,P(3)); for(int n=0;n<3000;n++) if((double)P::dot(a.begin(),b.begin(),64)!=64*3*(k+1)) bad[k]=1; }); for(auto&x:t) x.join(); return bad[0]|bad[1]|bad[2]|bad[3]; }
''')
s(id='s65_unpacked_leaves_decimal',prop='C24',edits=[(UH,"    ons.flags(af); // as it was\n","    ons << std::dec; // back to decimal\n")],
 needs='an unpacked number printed to a stream in hexadecimal mode',what='the stream is in decimal mode afterwards',
 demo=HEAD+'''
#include <sstream>
int main() { std::ostringstream o; o<<std::hex<<Unpacked<uint32_t,int>(1.5f); o.str(""); o<<255; CHECK(o.str()=="ff"); return bad; }
''')
s(id='s66_simd_saturating_negation',prop='C25',edits=[('include/simdposit8.hpp','this_t operator-() const { return this_t(_mm256_sub_epi8 (_mm256_setzero_si256(),v)); }','this_t operator-() const { return this_t(_mm256_subs_epi8 (_mm256_setzero_si256(),v)); }')],
 needs='the negation of a vector with a NaN lane',what='the opposite of NaN is the largest number',
 tables=['posit8'],srcs=['simdposit8.cpp'],flags='-std=gnu++14 -O1 -mavx2',demo='''
#include "simdposit8.hpp"
int main() { alignas(32) uint8_t a[32],r[32]; int bad=0; for(int k=0;k<256;k++) { for(int i=0;i<32;i++) a[i]=i*73+k; simd_posit8_32 x(_mm256_load_si256((__m256i*)a)); _mm256_store_si256((__m256i*)r,(-x).uu()); for(int i=0;i<32;i++) if(r[i]!=(uint8_t)-a[i]) bad=1; } return bad; }
''')
s(id='s67_half_order_by_integers',prop='C16',edits=[('include/float16native32.hpp','	friend bool operator < (float16n32 a, float16n32 b)  { return ((impl_t)a<(impl_t)b); }','	/// integers in the order of the numbers\n	int order() const { return value.what & 0x8000 ? -(value.what & 0x7FFF) : value.what; }\n	friend bool operator < (float16n32 a, float16n32 b)  { return a.order() < b.order(); }')],
 needs='a comparison with NaN',what='NaN is larger than infinity, or smaller than the negative infinity',
 demo='''
#include "float16native32.hpp"
int main() { using H=float16n32; int bad=0; for(int x: {0x7e00,0x7c01,0xfe00,0xffff}) for(int y: {0,0x8000,0x3c00,0xbc00,0x7c00,0xfc00,0x7e00}) { H a(false,x), b(false,y); if(a<b||b<a) bad=1; } if(!(H(false,0xbc00)<H(false,0x3c00))||H(false,0x8000)<H(false,0)) bad=1; return bad; }
''')
s(id='s68_emulated_from_int_single',prop='C15',edits=[('include/anyfloat.hpp','CONSTEXPR14 explicit anyfloat_emu(int i) : v(UnpackedT(i).template pack_xfloati<trait_t>()) {}','CONSTEXPR14 explicit anyfloat_emu(int i) : v(UnpackedT((float)i).template pack_xfloati<trait_t>()) {}')],
 needs='an int of more than 24 bits just below a power of two (or any number of the target format)',what='the int is rounded to nearest single precision before it is truncated',
 demo='''
#include "anyfloat.hpp"
int main() { int bad=0; for(int i: {33554431,-33554431,2147483647,16777217,1073741823}) { if((double)binary64_emu(i)!=i) bad=1; if(std::fabs((double)binary32_emu(i))>std::fabs((double)i)) bad=1; if(std::fabs((double)binary16alt_emu(i))>std::fabs((double)i)) bad=1; } return bad; }
''')
s(id='s69_positf_neg_of_top',prop='C20',edits=[('include/positf.h','constexpr PositF neg()  const { return v == PT::_POSIT_TOP ? *this : PositF(DeepInit(),-v); }; // the top element is its own opposite','constexpr PositF neg()  const { return PositF(DeepInit(),-v); };')],
 needs='the negation of NaN or of the unsigned infinity when the holder is wider than the posit',what='the pattern leaves the format',
 demo='''
#include "positf.h"
int main() { int bad=0; using P=PositF<int16_t,12,1,float,PositSpec::WithNan>; if(!P::nan().neg().isNaN()||!(P(1.0f)-P::nan()).isNaN()) bad=1; using Q=PositF<int32_t,20,2,double,PositSpec::WithInf>; if(!(-Q::inf()).isinfinity()) bad=1; return bad; }
''')
s(id='s70_smallest_subnormal',prop='C01',edits=[(UH,'ffracbits = -fexp < Trait::data_bits ? ffracbits >> -fexp : 0;','ffracbits = -fexp < Trait::fraction_bits - 1 ? ffracbits >> -fexp : 0;')],
 needs='a posit of the magnitude of the smallest subnormal single precision number, converted to float',what='the value becomes zero',
 demo=HEAD+'''
int main() { using P=Posit<int32_t,32,3,uint64_t,PositSpec::WithNan>; P p(1.5*std::ldexp(1.0,-149)); CHECK((float)p==std::ldexp(1.0f,-149)); CHECK(p.as_float_bin()==1); P q(std::ldexp(1.0,-148)); CHECK((float)q==std::ldexp(1.0f,-148)); return bad; }
''')
s(id='s71_self_quotient_is_one',prop='C08',edits=[(PH,"friend CONSTEXPR14 Posit operator/(const Posit & a, const Posit & b)  { return pack_posit<","friend CONSTEXPR14 Posit operator/(const Posit & a, const Posit & b)  { return a == b ? one() : pack_posit<")],
 needs='zero divided by zero, or infinity by itself',what='the result is one',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,16,1,uint32_t,PositSpec::WithNan>; CHECK((P::zero()/P::zero()).isNaN()); using Q=Posit<int16_t,16,1,uint32_t,PositSpec::WithNanInf>; CHECK((Q::inf()/Q::inf()).isNaN()); CHECK((Q(3)/Q(3)).isone()); return bad; }
''')
s(id='s72_times_minus_one',prop='C08',edits=[(PH,"		*this = pack_posit<T,totalbits,esbits,FT,positspec>(unpack()*b.unpack());\n		return *this;","		if(b.v == PT::POSIT_MONE)\n			v = -v; // only the sign changes\n		else\n			*this = pack_posit<T,totalbits,esbits,FT,positspec>(unpack()*b.unpack());\n		return *this;")],
 needs='NaN or the unsigned infinity multiplied in place by minus one, when the holder is wider than the posit',what='the pattern leaves the format',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,12,1,uint32_t,PositSpec::WithNan>; P p=P::nan(); p*=P(-1); CHECK(p.isNaN()); p=P(3); p*=P(-1); CHECK(p.v==P(-3).v); return bad; }
''')
s(id='s73_posit10_reciprocal_product',prop='C11',edits=[('src/posit10_gen.cpp','opdiv[i1*1024+i2] = X(f1/f2).v;','opdiv[i1*1024+i2] = X(f1*(1/f2)).v; // one division per column')],
 needs='a 10 bit quotient that is a posit while the reciprocal of the divisor is not a float',what='the quotient is one unit too small',
 tables=['posit10'],demo='''
#include "posit10.hpp"
#include <cstdio>
int main() { int bad=0; for(int v=1;v<511;v++) { posit10 p(posit10::DeepInit(),(int16_t)v); if((p/p).v!=posit10::one().v) { bad++; } for(int w=1;w<511;w++) { posit10 q(posit10::DeepInit(),(int16_t)w); if((p/q).v!=(p.as_posit()/q.as_posit()).v) bad++; } } printf("%d wrong\\n",bad); return bad!=0; }
''')
s(id='s74_pabs_by_short_mask',prop='C21',edits=[('include/bithippop.hpp','	T mask = (x >> (sizeof(T) * 8 - 1));','	T mask = (int)x >> 31;')],
 needs='the branchless absolute value of a 64 bit number',what='the sign is taken from bit 31',
 demo='''
#include "bithippop.hpp"
int main() { int bad=0; for(long x: {0L,1L,-1L,0x80000000L,-0x80000000L,0x7fffffffffffL,-0x7fff80000000L,-0x123456789aL}) if(pabs<int64_t>(x)!=(x<0?-x:x)) bad=1; if(pabs<int>(-7)!=7||pabs<int>(7)!=7) bad=1; return bad; }
''')
s(id='s75_prev_of_lowest',prop='C10',edits=[(PH,'constexpr Posit prev() const { return Posit(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }','constexpr Posit prev() const { return Posit(DeepInit(),v <= PT::POSIT_MINNEG ? v : v-1); }')],
 needs='prev() of the positive infinity in the policy with NaN and signed infinities',what='infinity does not stay put',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,12,1,uint16_t,PositSpec::WithNanInf>; CHECK(P::inf().prev().v==P::inf().v); CHECK(P::max().prev().v==P::max().v-1); CHECK(P::ninf().prev().v==P::ninf().v); return bad; }
''')
s(id='s76_wide_to_narrow_fraction',prop='C03',edits=[(PH,"auto frac = cast_msb<FT,sizeof(FT)*8,typename PT::POSIT_UTYPE,sizeof(typename PT::POSIT_UTYPE)*8>()(x.fraction);\n		return UnpackedLow","auto frac = cast_msb<FT,sizeof(FT)*8,typename PT::POSIT_UTYPE,sizeof(typename PT::POSIT_UTYPE)*8>()(x.fraction);\n		if(sizeof(FT) > sizeof(T) && (FT)(x.fraction << (sizeof(T)*8)) == (FT)~(FT)0 << (sizeof(T)*8))\n			frac++; // all ones: the rest of an inexact operation\n		return UnpackedLow")],
 needs='an unpacked number whose bits beyond the holder are all ones, with fractions wider than the holder',what='the number is rounded up instead of truncated',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,16,0,uint32_t,PositSpec::WithNan>; P p(1.0f+(float)(0x3fff*0x1p-13*0.5f)); using U=P::UnpackedT; U u(0,0x0007ffffu|0xfff80000u,false); CHECK(P(u).v==P::two().v-1); U w(0,0x1007ffffu,false); CHECK(P(w).v==P::one().v+(0x1007ffff>>19)); return bad; }
''')
LP='src/listposits.cpp'
LPH='''
#define main tool_main
#include "../src/listposits.cpp"
#undef main
#include <sstream>
#include <cmath>
using XX=%s;
// the columns of the line whose first column is v
static std::string line(const char*format,long v) { std::ostringstream o; auto*b=std::cout.rdbuf(o.rdbuf()); listpositsT<XX>(format); std::cout.rdbuf(b); std::istringstream i(o.str()); std::string l,k="\\t"+std::to_string(v)+"\\t"; while(std::getline(i,l)) if(l.compare(0,k.size(),k)==0) return l.substr(k.size()); return ""; }
'''
s(id='s77_listing_value_single',prop='C27',edits=[(LP,"case 'v': ons << c << (double)x; break;","case 'v': ons << c << (float)x; break;")],
 needs='a listed type whose range is beyond that of single precision',what='the largest and smallest numbers are listed as saturated',flags='-std=gnu++14 -O1 -march=native -I"$repo/extern"',
 demo=LPH%'Posit<int16_t,13,5,uint16_t,PositSpec::WithNan>'+'''
int main() { std::ostringstream w; w<<(double)XX(XX::DeepInit(),4095); bool a=line("Niv",4095)==w.str(); std::ostringstream u; u<<(double)XX(XX::DeepInit(),-5); return !(a&&line("Niv",-5)==u.str()); }
''')
s(id='s78_listing_regime_by_quotient',prop='C27',edits=[(LP,"case 'k': ons << c << std::dec << pt(l.regime) ;  break;","case 'k': ons << c << std::dec << pt(up.exponent / PT::POSIT_REG_SCALE) ;  break;")],
 needs='a type with exponent bits and a number below one whose exponent is no multiple of the regime scale',what='the listed regime is one too large',flags='-std=gnu++14 -O1 -march=native -I"$repo/extern"',
 demo=LPH%'Posit<int8_t,8,2,uint8_t,PositSpec::WithNan>'+'''
int main() { for(int v=-127;v<128;v++) if(v) { XX x(XX::DeepInit(),v); if(line("Nik",v)!=std::to_string((int)x.unpack_low().regime)) return 1; if(std::ldexp(1,4*(int)x.unpack_low().regime)>std::fabs((double)x)) return 1; } return line("Nik",1)!="-6"; }
''')
s(id='s79_dot_stops_at_infinity',prop='C17',edits=[(PH,"		    	v0 += (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack();","		    {\n		    	if(v0.isInfinity())\n		    		break; // more terms change nothing\n		    	v0 += (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack();\n		    }")],
 needs='a dot product with an infinite term followed by NaN or by the opposite infinity',what='the result is infinity instead of NaN',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,12,1,uint32_t,PositSpec::WithNanInf>; P a[3]={P(1),P::inf(),P(2)}, b[3]={P(3),P(1),P(4)}; CHECK(P::dot(a,b,3).v==P::inf().v); a[2]=P::nan(); CHECK(P::dot(a,b,3).isNaN()); a[2]=P::ninf(); CHECK(P::dot(a,b,3).isNaN()); a[1]=P(1); a[2]=P(2); CHECK(P::dot(a,b,3)==P(12)); return bad; }
''')
s(id='s80_side_effect_in_assert',prop='C22',edits=[(UH,"      exponent -= k;\n      fraction =\n          cast_right_to_left<typename Trait::holder_t","      assert((exponent -= k) < -(int)Trait::exponent_bias + 1);\n      fraction =\n          cast_right_to_left<typename Trait::holder_t"),(UH,"#include <inttypes.h>","#include <cassert>\n#include <inttypes.h>")],
 needs='a build with NDEBUG that decodes a subnormal floating point number',what='the exponent of the leading zeros is not counted: the result depends on NDEBUG',flags='-std=gnu++14 -O1 -march=native -DNDEBUG',
 demo=HEAD+'''
int main() { using P=Posit<int32_t,32,3,uint64_t,PositSpec::WithNan>; for(int k=127;k<150;k++) { volatile float f=std::ldexp(1.0f,-k); CHECK((double)P(f)==(double)f); } return bad; }
''')
s(id='s81_posit8_twice_table',prop='C23',edits=[('src/posit8.cpp','	return (posit8)(as_posit()*(FPT)2);\n}','	return posit8(DeepInit(),twices.v[(uint8_t)v]);\n}'),
  ('src/posit8.cpp','posit8 posit8::twice() const\n{','// all the products by two, filled once at the start of the program\nnamespace { struct twice_table { posit8::value_t v[256]; twice_table() { for(int i = 0; i < 256; i++) v[i] = (posit8(posit8::DeepInit(),(posit8::value_t)i).as_posit()*posit8::FPT(2)).v; } } twices; }\n\nposit8 posit8::twice() const\n{')],
 needs='twice() called by a constructor of a static object, before the table is filled',what='everything becomes zero',tables=['posit8'],
 demo='''
#include "posit8.hpp"
struct early { int bad; early() : bad(0) { for(int v=-128;v<128;v++) { posit8 p(posit8::DeepInit(),(int8_t)v); if(p.twice().v!=posit8(p.as_posit()*posit8::FPT(2)).v) bad=1; } } };
early e __attribute__((init_priority(101)));
int main() { return e.bad; }
''')
s(id='s82_dot_in_chunks',prop='C17',edits=[(PH,"	    	for(int i = 1; i < N; i++)\n		    	v0 += (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack();","	    	for(int i = 1; i < N; i++)\n	    	{\n	    		if((i & 127) == 0)\n	    			v0 = Posit(v0).unpack(); // stays in range\n		    	v0 += (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack();\n	    	}")],
 needs='a dot product of more than 128 terms whose partial sum is not a posit',what='the partial sum is rounded every 128 terms',
 demo=HEAD+'''
#include <vector>
int main() { using P=Posit<int8_t,8,0,uint32_t,PositSpec::WithNan>; std::vector<P> a(300,P(1)), b(300,P(0)); for(int i=1;i<=128;i++) b[i]=P(1.0/64); CHECK(P::dot(a.begin(),b.begin(),300).v==P(2).v); return bad; }
''')
s(id='s86_float_via_double',prop='C01',edits=[(PH,"	constexpr operator float() const { return unpack(); }","	constexpr operator float() const { return (double)unpack(); }")],
 needs='a posit with more than 24 significant bits converted to float',what='the value is rounded to nearest instead of truncated',
 demo=HEAD+'''
int main() { using P=Posit<int32_t,32,2,uint64_t,PositSpec::WithNan>; P p=P(2).prev(); CHECK((float)p==std::nextafterf(2.0f,0.0f)); CHECK((float)-p==-std::nextafterf(2.0f,0.0f)); CHECK((float)P(1.5)==1.5f); return bad; }
''')
s(id='s87_info_uninitialised',prop='C18',edits=[(PH,"		int rs = 0;","		int rs;"),(PH,"		int fs = 0;","		int fs;")],
 needs='the analysis of zero, NaN or infinity',what='two fields of the result are not initialised',
 demo=HEAD+'''
#include <cstdlib>
template <class P> __attribute__((noinline)) int fields(P p) { auto i=p.analyze(); volatile int r=i.rs|i.fs; return r; }
template <class F> __attribute__((noinline)) void dirty() { volatile unsigned char b[2048]; for(int i=0;i<2048;i++) b[i]=0x5a; }
int main() { using P=Posit<int16_t,16,1,uint32_t,PositSpec::WithNan>; dirty<int>(); CHECK(fields(P::zero())==0); dirty<int>(); CHECK(fields(P::nan())==0); return bad; }
''',flags='-std=gnu++14 -O0 -march=native')
s(id='s91_emulated_fma_contracted',prop='C15',edits=[('include/anyfloat.hpp','		return anyfloat_emu((FFT)a*(FFT)b+(FFT)c);\n','		return anyfloat_emu(FFT(__builtin_fmal((FFT)a,(FFT)b,(FFT)c))); // one rounding\n'),('include/anyfloat.hpp','	friend constexpr anyfloat_emu fma(','	friend anyfloat_emu fma(')],
 needs='an emulated multiply and add whose product needs more bits than the native format',what='the product is not rounded to the native format',
 demo='''
#include "anyfloat.hpp"
#include <cmath>
int main() { int bad=0; using D=binary64_emu; double x=1+std::ldexp(1.0,-30); volatile double y=x*x; if((double)fma(D(x),D(x),D(-y))!=0) bad=1; if((double)fma(D(3.0),D(5.0),D(1.0))!=16) bad=1; return bad; }
''')
s(id='s92_positf_quotient_of_float',prop='C20',edits=[('include/positf.h','	friend constexpr PositF operator/(const PositF & a, const PositF & b)  { return pack_posit(UnpackedT((FFT)a/(FFT)b)); }','	friend constexpr PositF operator/(const PositF & a, const PositF & b)  { return pack_posit(UnpackedT((FFT)a*(1/(FFT)b))); }')],
 needs='a quotient that is exact while the reciprocal of the divisor is not',what='the quotient is truncated to the posit below',
 demo='''
#include "positf.h"
int main() { int bad=0; using P=PositF<int16_t,16,1,float,PositSpec::WithNan>; for(int a=1;a<50;a++) for(int b=1;b<50;b++) if((P(a*b)/P(b)).v!=P(a).v && (double)P(a*b)==a*b) bad=1; return bad; }
''')
s(id='s93_simd_all_zero_product',prop='C25',edits=[('include/simdposit8.hpp','	friend this_t operator*(this_t a, this_t b) { return this_t(lookup2(a.uu(),b.uu(),posit8ns::opmul)); }','	friend this_t operator*(this_t a, this_t b) { return _mm256_testz_si256(a.v,a.v) ? a : this_t(lookup2(a.uu(),b.uu(),posit8ns::opmul)); } // nothing to look up for zeros')],
 needs='the product of a vector of zeros with a vector that has a NaN lane',what='the lane is zero instead of NaN',
 tables=['posit8'],srcs=['simdposit8.cpp'],flags='-std=gnu++14 -O1 -mavx2',demo='''
#include "simdposit8.hpp"
int main() { alignas(32) uint8_t a[32],r[32]; int bad=0; for(int i=0;i<32;i++) a[i]=i==17?0x80:i; simd_posit8_32 z(0), x(_mm256_load_si256((__m256i*)a)); _mm256_store_si256((__m256i*)r,(z*x).uu()); for(int i=0;i<32;i++) if(r[i]!=(i==17?0x80:0)) bad=1; _mm256_store_si256((__m256i*)r,(x*simd_posit8_32(1)).uu()); for(int i=0;i<32;i++) if(r[i]!=a[i]) bad=1; return bad; }
''')
s(id='s94_posit12_int_single',prop='C11',edits=[('src/posit12.cpp','posit12::posit12(int a): v((FPT(a)).v)','posit12::posit12(int a): posit12((float)a)')],
 needs='a 12 bit posit from an int of more than 24 bits just below a power of two',what='the int is rounded to nearest single precision first',
 tables=['posit12'],demo='''
#include "posit12.hpp"
int main() { int bad=0; for(int k=25;k<31;k++) { int i=(1<<k)-1; if(posit12(i).v!=posit12(1<<k).v-1||posit12(-i).v!=-posit12(i).v) bad=1; } if(posit12(5).v!=posit12(5.0f).v) bad=1; return bad; }
''')
s(id='s95_lazy_references',prop='C17',edits=[(PH,'		constexpr PositMul(Posit av, Posit bv) : a(av),b(bv) {}\n		Posit a,b;','		constexpr PositMul(const Posit & av, const Posit & bv) : a(av),b(bv) {}\n		const Posit &a,&b; // nothing to copy')],
 needs='the lazy product build, and an operand that changes or ends before the product is used',what='the product is that of the new values',flags='-std=gnu++14 -O1 -march=native -DPOSITMUL',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,16,1,uint32_t,PositSpec::WithNan>; P x(3), y(4); auto m=x*y; x=P(100); CHECK((double)(m+P(1))==13); CHECK((double)(P(2)*P(3)).asPosit()==6); return bad; }
''')
s(id='s96_stream_base_left_decimal',prop='C24',edits=[(PH,'	ons.setf(af & std::ios::basefield, std::ios::basefield);\n	return ons;','	if(f == std::ios::hex || f == std::ios::oct)\n		ons.setf(f, std::ios::basefield);\n	return ons;')],
 needs='a posit printed to a stream with no base selected',what='the stream is in decimal mode afterwards: numbers with a prefix are not read any more',
 demo=HEAD+'''
#include <sstream>
int main() { using P=Posit<int16_t,16,1,uint32_t,PositSpec::WithNan>; std::stringstream o; o.unsetf(std::ios::basefield); o<<P(1); auto f=o.flags(); CHECK((f&std::ios::basefield)==0); o.str(" 0x10 "); int i=0; o>>i; CHECK(i==16); o.clear(); o<<std::hex<<P(1); CHECK((o.flags()&std::ios::basefield)==std::ios::hex); return bad; }
''')

s(id='s97_half_not_inline',prop='C28',edits=[('include/float16native32.hpp','inline float16n_t float32to16n(float x)\n{\n\t// rounding','float16n_t float32to16n(float x)\n{\n\t// rounding')],
 needs='a program of two translation units that both include the header (with hardware half precision)',what='it does not link',
 script='''printf '#include "float16native32.hpp"\\nint other() { return float16n32(2.0f).raw(); }\\n' > "$d/a.cpp"
printf '#include "float16native32.hpp"\\nint other(); int main() { return other()==float16n32(2.0f).raw()?0:1; }\\n' > "$d/b.cpp"
for f in a b; do g++ -std=gnu++14 -O1 -mf16c -msse4.2 -w -I"$repo/include" -c "$d/$f.cpp" -o "$d/$f.o" || exit 2; done
g++ "$d/a.o" "$d/b.o" -o "$d/demo" || exit 1
grep -q f16c /proc/cpuinfo || exit 0
"$d/demo"''')
s(id='s98_add_to_itself',prop='C28',edits=[(PH,'	Posit& operator+=(const Posit &a) { Posit r = *this+a; v = r.v; return *this; }','	Posit& operator+=(const Posit &a)\n	{\n		// with a left side above zero, one path is enough\n		const bool neg = v < 0 && !isNaN() && !isinfinity();\n		if(neg)\n			v = -v;\n		Posit r = neg ? *this - a : *this + a;\n		v = neg ? -r.v : r.v;\n		return *this;\n	}')],
 needs='a negative posit added to itself (both sides are the same object)',what='the sum is zero',
 demo=HEAD+'''
int main() { using P=Posit<int16_t,12,1,uint32_t,PositSpec::WithNan>; for(int i=-2000;i<2000;i+=7) { P a(P::DeepInit(),i), b=a, c(P::DeepInit(),-i/3), d=a; const P s=a+b; a+=a; CHECK(a.v==s.v); b+=c; CHECK(b.v==(d+c).v); } return bad; }
''')
s(id='s99_posit12_aligned',prop='C28',edits=[('include/posit12.hpp','	int16_t v;','	alignas(4) int16_t v; // one access of the processor')],
 needs='an array of 12 bit posits read or written as an array of patterns',what='every second pattern of the array is lost: a posit takes four bytes',
 tables=['posit12'],demo='''
#include "posit12.hpp"
#include <cstring>
int main() { int16_t pat[4]={0x400,-0x400,0x123,-1}; posit12 a[4]; memcpy((void*)a,pat,sizeof pat); for(int i=0;i<4;i++) if(a[i].v!=pat[i]) return 1; return sizeof(a)!=sizeof(pat); }
''')
s(id='s100_default_not_zero',prop='C28',edits=[(PH,'	constexpr Posit() : v(0) {}','	Posit() = default; // trivial, arrays are not written twice')],
 needs='a posit (or an array of posits) made without an initial value on memory used before',what='it is whatever the memory held, not zero',
 demo=HEAD+'''
#include <new>
int main() { using P=Posit<int16_t,16,1,uint32_t,PositSpec::WithNan>; alignas(8) volatile unsigned char raw_[64]; for(auto&x:raw_) x=0x5a; P*a=new((void*)raw_) P[16]; asm volatile("":::"memory"); for(int i=0;i<16;i++) CHECK(a[i].v==0); return bad; }
''')

EH='include/positeigen.h'
NT='    IsSigned = 1,\n    RequireInitialization = 1,\n    ReadCost = 1,\n    AddCost = 3,\n    MulCost = 3\n  };\n};\n\n\n\ntemplate'
s(id='s101_eigen_uninitialised',prop='C29',edits=[(EH,NT,NT.replace('RequireInitialization = 1','RequireInitialization = 0 /* a plain pattern */'))],
 needs='a matrix of posits created on memory that was used before and only partly written',what='its elements are what the memory held, not zero',flags='-std=gnu++14 -O1 -march=native -I/usr/include/eigen3',
 demo=HEAD+'''
#include "positeigen.h"
#include <cstring>
int main() { using P=Posit<int16_t,16,1,uint32_t,PositSpec::WithNan>; for(int sz=112;sz<=208;sz+=16) { void*w[9]; for(int i=0;i<9;i++) { w[i]=malloc(sz); memset(w[i],0x5a,sz); } asm volatile(""::"r"(w):"memory"); for(int i=0;i<9;i++) free(w[i]); }
 Eigen::Matrix<P,Eigen::Dynamic,Eigen::Dynamic> m(8,8); m(0,0)=P(1); asm volatile(""::"r"(m.data()):"memory"); for(int i=1;i<64;i++) CHECK(m.data()[i].v==0); return bad; }
''')
s(id='s102_eigen_sign_of_fraction',prop='C29',edits=[(EH,NT,NT.replace('IsSigned = 1','IsSigned = std::is_signed<FT>::value'))],
 needs='the absolute values (or a norm made of them) of a matrix with negative elements',what='Eigen takes the type for unsigned and leaves the elements negative',flags='-std=gnu++14 -O1 -march=native -I/usr/include/eigen3',
 demo=HEAD+'''
#include "positeigen.h"
int main() { using P=Posit<int16_t,16,1,uint32_t,PositSpec::WithNan>; Eigen::Matrix<P,3,1> m; m(0)=P(1); m(1)=P(-3); m(2)=P(2); CHECK(m.cwiseAbs()(1).v==P(3).v); CHECK((m.lpNorm<Eigen::Infinity>().v==P(3).v)); CHECK(m.sum().v==0); return bad; }
''')

s(id='s103_memo_key_sign',prop='C23',edits=[('include/posit12.hpp','	friend posit12 operator/(posit12 a, posit12 b) { return (posit12)(a.as_posit()/b.as_posit()); }','	friend posit12 operator/(posit12 a, posit12 b)\n	{\n		// programs divide by the same number again and again\n		static thread_local int lastkey = 0;\n		static thread_local value_t last = PT::withnan ? -2048 : 0;\n		const int key = ((int)a.v << 12) | b.v;\n		if(key != lastkey)\n		{\n			last = (a.as_posit()/b.as_posit()).v;\n			lastkey = key;\n		}\n		return posit12(DeepInit(),last);\n	}')],
 needs='two quotients in a row by the same negative number',what='the second quotient is that of the first: the sign of the divisor covers the dividend in the key',
 tables=['posit12'],demo='''
#include "posit12.hpp"
int main() { int bad=0; for(int i=1;i<20;i++) { posit12 a(i), b(-2), c(4); if((a/b).v!=(posit12::FPT(i)/posit12::FPT(-2)).v) bad=1; } for(int i=1;i<20;i++) { posit12 a(i), c(4); if((a/c).v!=(posit12::FPT(i)/posit12::FPT(4)).v) bad=1; } return bad; }
''')
