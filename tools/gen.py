#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand, never by a check)."""
import json,os,sys
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,tech,note):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,observe=observe,tech=tech,note=note))
CF='configurations'; IN='inputs'; HI='histories'; SC='schedules'
OR='real code run under adversarial operands, every event judged online by an independent bit-level reference model'
p('C01','Decoding a posit yields the value its bits denote',
 'For every posit configuration and every bit pattern, converting to double, float or raw float bits, unpacking (to sign/exponent/fraction or to sign/regime/exponent/fraction) and the diagnostic analysis all yield exactly the value and the fields that the posit encoding defines for that pattern, including patterns whose regime crowds out exponent and fraction bits. When the target is narrower the value is truncated toward zero (with gradual underflow, and the largest finite number of the target instead of overflow); zero, NaN and infinity decode to zero, NaN and infinity.',
 [IN,CF],'every bit pattern of every configuration (holder, 3..63 bits, exponent bits, fraction type, special value policy)',
 'tests look at a handful of 8 and 32 bit patterns; the decoding depends on five template parameters and on the regime length',
 ['include/posit.h','include/unpacked.h','include/typehelpers.hpp','include/bithippop.hpp'],[('regime/exponent/fraction split','include/posit.h unpack_low, decode_posit_rs, unpacked_low2full, analyze'),('packing to floats','include/unpacked.h pack_xfloati')],
 ['operator double/float','as_float_bin','unpack','unpack_low','analyze'],OR,'all patterns up to 16 bits; structured and random patterns above')
p('C02','Numbers are encoded by truncation toward zero, saturating, never to zero',
 'Building a posit from a float, a double, an int, raw single precision bits or an unpacked number gives the posit whose pattern is the exact value truncated toward zero. Values beyond the largest magnitude give plus or minus the largest finite posit, non-zero values below the smallest magnitude give plus or minus the smallest posit, zero of either sign gives zero, and NaN and infinity give the NaN or infinity of the configuration (the single special value when there is only one).',
 [IN,CF],'every source number (subnormals, NaN payloads, extremes, halfway points) for every configuration',
 'tests convert a few dozen short decimal constants',
 ['include/posit.h','include/unpacked.h'],[('float decoding','include/unpacked.h unpack_xfloati, unpack_int'),('clamp and pack','include/posit.h unpacked_full2low, pack_low')],['constructors of Posit'],OR,'2^64 doubles are sampled: neighbours of posit values and midpoints, all binades, random bits')
p('C03','Conversions round trip',
 'A posit survives unpacking and repacking in either unpacked form, and survives a trip through double, float, int or a wider posit with the same exponent size whenever its value is exactly representable there; otherwise the trip gives the truncation of what the intermediate type holds. Encoding an already encoded value changes nothing.',
 [IN,CF],'every pattern of every configuration, every intermediate type','round trips in the tests cover 8 and 12 bit types and a few constants',
 ['include/posit.h','include/unpacked.h'],[('pack/unpack pairs','include/posit.h unpack_low/pack_low, unpacked_low2full/unpacked_full2low')],['constructors and conversion operators'],OR,'')
p('C04','Addition and subtraction are faithful, and exact for equal signs',
 'The sum of two finite posits of equal sign is the exact sum truncated toward zero, and the sum of posits of opposite sign is the exact sum or one of the two posits around it (exact when it is representable); subtraction is addition of the opposite, and compound assignment gives the same result. Results saturate at the largest magnitude and a non-zero exact result is never turned into zero; addition is commutative and negating both operands negates the result.',
 [IN,CF],'every pair of patterns of every configuration','tests add a few pairs and loop over one 8 bit type',
 ['include/posit.h','include/unpacked.h'],[('aligned add','include/unpacked.h operator+'),('rounding','include/posit.h pack_low')],['operator+','operator-','operator+='],OR,'all pairs up to 8 bits (9 in thorough); related pairs above')
p('C05','Multiplication is the exact product truncated toward zero',
 'The product of two finite posits is the exact product truncated toward zero and saturated at the largest and smallest magnitudes, zero times anything finite is zero, multiplication commutes, and a sign change of one operand changes only the sign of the result. Compound assignment, also with the same object on both sides, gives the same result.',
 [IN,CF],'every pair of patterns of every configuration','tests multiply a few pairs',
 ['include/posit.h','include/unpacked.h','include/typehelpers.hpp'],[('double width product','include/unpacked.h operator*, include/typehelpers.hpp nextintop')],['operator*','operator*='],OR,'as C04')
p('C06','Division is the exact quotient truncated toward zero',
 'The quotient of two finite posits with non-zero divisor is the exact quotient truncated toward zero and saturated at the largest and smallest magnitudes, dividing by one changes nothing, a non-zero number divided by itself is one, and signs combine as in arithmetic. Compound assignment, also with the same object on both sides, gives the same result.',
 [IN,CF],'every pair of patterns of every configuration','tests divide a few pairs',
 ['include/posit.h','include/unpacked.h','include/typehelpers.hpp'],[('double width quotient','include/unpacked.h operator/, include/typehelpers.hpp nextintop')],['operator/','operator/='],OR,'as C04')
p('C07','Reciprocal, half and twice are truncated exact results',
 'For every finite non-zero posit the reciprocal in all its spellings equals one divided by it, truncated toward zero and saturated, and half and twice are the exact half and double truncated toward zero and saturated at the smallest and largest magnitude.',
 [IN,CF],'every pattern of every configuration','tests take the reciprocal of a few values; the code has shortcuts for powers of two and works on the regime directly',
 ['include/posit.h','include/unpacked.h'],[('regime arithmetic','include/posit.h inv, half, twice')],['inv','operator~','half','twice'],OR,'all patterns up to 16 bits')
p('C08','Special values follow the algebra of their policy; finite arithmetic is closed',
 'With NaN only, every undefined or infinite result is NaN and NaN propagates through every operation; with one unsigned infinity, undefined results are that infinity, x/0 is infinity and x/infinity is 0; with NaN and signed infinities the IEEE rules hold (x/0 takes the sign of x, infinity minus infinity, 0*infinity, 0/0 and infinity/infinity are NaN). Operations on finite posits (division by zero aside) always give a finite posit in the valid pattern range, which is zero only if the exact result is zero.',
 [IN,CF],'every combination of special and finite operands for the three policies','tests touch a few special cases of one policy',
 ['include/posit.h','include/unpacked.h'],[('type dispatch','include/unpacked.h UnpackedDualSel switches'),('policy constants','include/posit.h PositTrait, pack_low')],['all arithmetic operators, fma, inv, half, twice, neg, abs, constructors'],OR,'')
p('C09','Ordering, negation and absolute value are those of the real numbers',
 'For every pair of posits the six comparisons, min and max agree with the order of the real values they denote (signed infinities at the ends, NaN unordered with everything), negation and absolute value are exact and involutive, and the sign, zero, one, NaN and infinity predicates are true exactly for those values.',
 [IN,CF],'every pair of patterns of every configuration','tests compare a few values',
 ['include/posit.h'],[('integer comparison of patterns','include/posit.h comparison operators, neg, abs')],['operators < <= > >= == !=','std::min/max/abs','predicates'],OR,'')
p('C10','Neighbours and constants are the true neighbours, limits and units',
 'Next and previous move to the adjacent representable finite value, invert each other, and stay put at the ends and on special values. Zero, one, minus one, two, one half, largest, smallest, lowest, NaN, infinities, epsilon and the numeric limits of every configuration are exactly the values their names say.',
 [IN,CF],'every pattern of every configuration','tests check two types',
 ['include/posit.h'],[('constants','include/posit.h PositTrait'),('neighbours','include/posit.h next, prev, numeric_limits')],['next','prev','static constants','std::numeric_limits'],OR,'')
p('C11','Tabulated posits equal the exact posit arithmetic',
 'For every operand, the 8, 10 and 12 bit table driven posits give for conversion, reciprocal, half, twice, square, multiplication, division and negation the exact result truncated toward zero, for addition and subtraction the same (for the 10 and 12 bit types either neighbour when the exact sum does not fit), and exp2 the right power. Their comparisons, predicates, constants and conversions agree with the generic posit of the same format.',
 [IN,CF],'every pattern and every pair of patterns of the three types','tests look at a few entries of 65536 x 4, 10^6 x 3 and 16.7*10^6 pairs',
 ['include/posit8.hpp','include/posit10.hpp','include/posit12.hpp','src/posit8.cpp','src/posit10.cpp','src/posit12.cpp','src/posit8_gen.cpp','src/posit10_gen.cpp','src/posit12_gen.cpp'],[('table generation','src/posit8_gen.cpp, src/posit10_gen.cpp, src/posit12_gen.cpp'),('table lookup','include/posit8.hpp, posit10.hpp, posit12.hpp')],['all operators of posit8, posit10, posit12'],'generators of the working tree are built and run, then every entry is observed through the public operators and judged against the reference model','exhaustive over patterns and pairs')
p('C12','Floating point formats decode and encode correctly',
 'Every bit pattern of every supported floating point format (half, its 8 bit exponent variant, bfloat, 8 bit, single and double) decodes to its exact value (subnormals, signed infinities and NaNs with any payload included; formats without subnormals read them as zero), truncated to the fraction width. Encoding truncates toward zero with gradual underflow and saturates to the largest finite number, conversions between formats compose the two, and decoding onto an unpacked number that already held another value leaves no trace of it.',
 [IN,CF],'every pattern of every format and fraction width; every pair of formats','tests convert a few constants',
 ['include/unpacked.h','include/floattraits.hpp','include/typehelpers.hpp'],[('decode','include/unpacked.h unpack_xfloati'),('encode','include/unpacked.h pack_xfloati, packdenorm')],['make_floati, pack_xfloati, convertfloats, native constructors'],OR,'all patterns of 8 and 16 bit formats; every binade of 32 and 64 bit ones')
p('C13','Integer and fixed point conversions truncate and saturate',
 'An int or fixed point number decodes to its exact value truncated to the fraction width. Converting a posit or an unpacked number to an int or a fixed point format truncates toward zero, saturates at the ends of the range, and gives 0 for NaN and infinity; no input makes it wrap around. Decoding onto an unpacked number that already held another value leaves no trace of it.',
 [IN,CF],'every integer and fixed point value, every posit','tests convert a few small integers',
 ['include/unpacked.h','include/fixedtraits.hpp','include/posit.h'],[('fixed decode/encode','include/unpacked.h unpack_xfixed, pack_xfixed, unpack_int, pack_int')],['operator int','constructors from int','make_fixed, pack_xfixed'],OR,'all 8 and 16 bit values')
p('C14','Unpacked arithmetic is accurate to its fraction width',
 'On unpacked numbers, multiplication and division are within a few units of the last fraction place, and truncate the exact result when the operands leave two fraction bits spare; addition is exact when both operands fit the aligned width and otherwise within two of its units. Equality, sign symmetry, identities (x+0, x*1, x-x, x/x), normalisation and the behaviour of zero, infinity and NaN are those of real arithmetic with IEEE special values.',
 [IN,CF],'every pair of unpacked numbers for every fraction and exponent type','tests add and multiply a few pairs',
 ['include/unpacked.h','include/typehelpers.hpp'],[('arithmetic','include/unpacked.h operator+ - * /, inv, normalized')],['operators of Unpacked'],OR,'')
p('C15','Emulated small floats compute the native result truncated to the format',
 'For the emulated floating point types and the tabulated 8 bit float, every operation gives the result of the native operation on the decoded operands, truncated toward zero to the format with saturation to the largest finite number. Comparisons, negation, absolute value, conversions and constants agree with the decoded values.',
 [IN,CF],'every pair of patterns of every emulated format','tests use a few values of one format; the tabulated float has no test',
 ['include/anyfloat.hpp','include/binary8.hpp','src/binary8.cpp','src/binary8_gen.cpp','include/floattraits.hpp'],[('emulation','include/anyfloat.hpp'),('tables','src/binary8_gen.cpp')],['operators of anyfloat_emu and binary8tab'],OR,'all pairs of the 8 bit formats; sampled pairs of the others')
p('C16','Half precision numbers compute the single precision result rounded to half',
 'Every operation of the half precision type gives the single precision result of the decoded operands rounded to half: to nearest even with the hardware conversion, toward zero and saturating, with an unsigned zero, with the software conversion. Decoding is exact for every pattern, and comparisons, negation, absolute value and constants agree with the decoded values.',
 [IN,CF],'every pattern and pairs of patterns, both conversion paths','the test prints a few values',
 ['include/float16native32.hpp','include/unpacked.h'],[('conversion','include/float16native32.hpp float16nto32, float32to16n')],['operators of float16n32'],OR,'all 65536 patterns, sampled pairs, both builds')
p('C17','Fused multiply-add, dot product and lazy product round once',
 'With a fraction type at least twice as wide as the posit, fused multiply-add and the sum or difference of two products (as a lazy product expression or a dot product of two terms) give the exact result truncated toward zero, or faithfully rounded when the signs of the terms differ. Longer dot products, and narrower fraction types, deviate from the exact value by no more than a few units of the fraction width relative to the largest term or partial sum, per term. A dot product over no terms is zero, and its value does not depend on the kind of iterator; a lazy product keeps the operands it was given.',
 [IN,CF,'programs'],'every operand triple, vector length and content','one test with two short vectors',
 ['include/posit.h','include/unpacked.h'],[('accumulate unpacked','include/posit.h fma, dot, PositMul')],['fma','dot','POSITMUL operators'],OR,'')
p('C18','No operation executes undefined behaviour or touches foreign memory',
 'No public operation, conversion, table lookup or constant, applied to any valid operands, shifts by an out of range amount, overflows a signed integer, converts an unrepresentable float, reads memory it does not own or depends on uninitialised data.',
 [IN,CF],'every operation on every operand of every configuration','the test build has no sanitizers, and undefined shifts give plausible numbers on this processor',
 ['include/posit.h','include/unpacked.h','include/bithippop.hpp','include/typehelpers.hpp','include/anyfloat.hpp','include/binary8.hpp','include/posit8.hpp','src/posit8.cpp'],[('shift and conversion guards','include/unpacked.h, include/posit.h')],['all'],'compiler sanitizers (ASan, UBSan incl. float-cast and shift exponents) and valgrind memcheck watching every other workload','reduced case counts of every other workload')
p('C19','Unit range and sigmoid shortcuts approximate the functions they stand for',
 'The unit range test is true exactly for the posits in [0,1]. For posits without exponent bits, one minus x is exact for every x in the unit range and x(1-x) is the truncated product; the fast sigmoid is the pattern with flipped sign bit shifted right by two: it is non decreasing, one half at 0, in [0,1] and within 0.075 (plus the resolution of the format) of the logistic function; the fast softplus is the pattern with flipped sign bit shifted right by one, non decreasing and non negative.',
 [IN,CF],'every finite posit of every configuration without exponent bits','no test',
 ['include/posit.h','include/positf.h'],[('bit tricks','include/posit.h pseudosigmoid, pseudosoftplus, urOneMinus, urDeltaPs, isUnitRange')],['pseudosigmoid','pseudosoftplus','urOneMinus','urDeltaPs','isUnitRange'],OR,'all patterns up to 16 bits')
p('C20','Float backed posits compute the native result truncated to the posit',
 'A posit backed by a native float or double gives for each operation the native result on the decoded operands truncated toward zero to the posit format, wherever the native type holds the operands exactly; encoding, decoding, ordering, neighbours, negation and constants equal those of the generic posit of the same format.',
 [IN,CF],'every pair of patterns of every float backed configuration','one test with a few constants',
 ['include/positf.h'],[('native arithmetic','include/positf.h')],['operators of PositF'],OR,'')
p('C21','Bit manipulation helpers match their arithmetic definition',
 'For every value and every valid position and width, field extraction, masks, leading bit search, alignment casts between widths, absolute value and float to bits conversion return what their arithmetic definition says, whichever instruction set is selected.',
 [IN,CF],'every argument of every integer width, with and without bit manipulation instructions','the tests check a few constants',
 ['include/bithippop.hpp','include/typehelpers.hpp','include/floatconst2bits.hpp'],[('helpers','include/bithippop.hpp bitset_*, findbitleftmostC; include/typehelpers.hpp cast_msb, cast_right_to_left')],['helpers'],OR,'')
p('C22','Results do not depend on compiler, optimisation, dialect or constant folding',
 'The same operation on the same operands gives the same pattern whichever compiler, optimisation level, language standard and instruction set the headers are built with, and constant expressions evaluate to the run time result.',
 [CF,IN],'build configurations x operations x operands','the tests run in one build configuration',
 ['include/posit.h','include/unpacked.h','include/bithippop.hpp','include/typehelpers.hpp'],[('conditional compilation','include/bithippop.hpp')],['digest of results across builds'],'recorded result logs of several builds of the same workload compared entry by entry','')
p('C23','Operations are pure: independent of history and of concurrent use',
 'Every operation is a function of its operands: its result does not depend on what was computed before (not even on whether main has been entered), on what other threads compute or, for everything made of integer arithmetic (posits, unpacked numbers, their conversions), on the rounding mode of the processor; it does not modify its operands or hidden global state (only printing writes to a stream, and only to the one it is given), and values and tables can be used from any number of threads without a data race.',
 [SC,HI],'every interleaving of operations on shared constant values and tables; every prior history','tests are single threaded and do not repeat',
 ['include/posit.h','include/unpacked.h','include/posit8.hpp','src/posit8.cpp','include/anyfloat.hpp'],[('no state','value classes without globals; constant tables')],['all operations from many threads'],'ThreadSanitizer over shared values and tables, plus replay of recorded results in another order and from several threads','')
p('C24','Printing shows the value and leaves the stream as it was',
 'Writing a posit to a stream prints its single precision value in decimal mode, its raw pattern in hexadecimal mode and its unpacked form in octal mode, leaves every formatting flag of the stream as it was, and writes nothing else; the tabulated and half precision types print their documented form, and vector posits, their masks and lanes print lane by lane.',
 [IN,CF],'every pattern, stream state and type','no test reads what is printed',
 ['include/posit.h','include/unpacked.h','include/posit8.hpp','include/float16native32.hpp'],[('stream insertion','include/posit.h operator<<')],['operator<<'],OR,'')
p('C25','Vector posits act on each lane like the scalar posit',
 'For all lane contents, every operation of the 32 lane 8 bit posit vector gives in each lane the result of the scalar 8 bit posit on that lane, classification gives an all-ones lane exactly where the scalar test is true, and lanes do not influence each other.',
 [IN],'every operand pair in every lane position','the test prints one vector',
 ['include/simdposit8.hpp','src/simdposit8.cpp'],[('lane lookup','include/simdposit8.hpp lookup1, lookup2')],['operators of simd_posit8_32'],OR,'all pairs of patterns, several lane arrangements; needs AVX2')
p('C26','Square root is faithful',
 'The square root of a non-negative finite posit of up to 40 bits, whose value a double can hold, is the exact square root or one of the two posits around it (exact when it is representable), the root of zero is zero, and the root of a negative number or NaN is the special value of the configuration.',
 [IN,CF],'every pattern of every configuration','no test',
 ['include/posit.h'],[('via double','include/posit.h std::sqrt')],['std::sqrt'],OR,'')
p('C27','The listing tool describes every pattern of a type truthfully',
 'For a posit type and a format, the listing tool prints every pattern of the type exactly once, in signed order (finite patterns) or in unsigned order (all patterns), with the requested columns: signed and unsigned integer, bits, value, printed form, unpacked form, and for finite non-zero patterns regime, exponent and regime factor, all of them those the encoding defines, followed on request by the columns of the truncated reciprocal, double and half. The titles match the columns, the binary output holds the same numbers, and the overview states the true sizes, special values, one half, two and limits.',
 [IN,CF],'every pattern of every listable type and every combination of formats','no test builds the tool',
 ['src/listposits.cpp','include/posit.h','include/posit8.hpp','include/posit10.hpp','include/posit12.hpp'],[('listing loop','src/listposits.cpp listpositsT, print1')],['standard output and the binary file of the tool'],'offline checker over the listings the real tool wrote, ASan+UBSan on two of them','types of up to 16 bits')
p('C28','A value is exactly its pattern, as an object and across translation units',
 'Every posit, tabulated posit, float backed posit and emulated float occupies exactly the bytes of its storage type and nothing else; default construction, of arrays and in containers too, gives zero; copying, moving, assigning, swapping, sorting, throwing, storing in containers or atomics and copying bytes keep every pattern; an operation writes its result only, also when the result is one of its operands (a+=a, a=a*b); a deferred product keeps the operands it was made from; and translation units built with different compilers, dialects, optimisation levels and include orders link into one program in which they agree on layout and exchange values and results unchanged.',
 [IN,CF,HI],'every pattern, every way to copy or store it, every combination of translation units','the tests are single programs of one translation unit and do not look at memory',
 ['include/posit.h','include/posit8.hpp','include/posit10.hpp','include/posit12.hpp','include/positf.h','include/anyfloat.hpp','include/binary8.hpp','include/float16native32.hpp','include/simdposit8.hpp'],[('one member','T v in every value class; inline functions and constants in headers')],['bytes of objects, containers, results of other translation units'],'online checker of object bytes and containers under ASan+UBSan, and a program linked from nine translation units of two compilers','')
p('C29','Matrices of posits compute element by element what posits compute',
 'Eigen matrices and arrays of posits of any shape and storage order behave like their elements: new matrices are zero, constants, copies, views, casts from and to native numbers, comparisons, printing and every elementwise operation give for each element what the scalar posit gives; sums, norms, traces, dot and matrix products of at most two non-zero terms, or of terms whose sums are exact in every order, give the scalar result, the largest and smallest elements are those of the posit order, and the numeric traits agree with the limits of the type.',
 [IN,CF],'every matrix, shape, storage order and posit configuration','no test includes the Eigen support',
 ['include/positeigen.h','include/posit.h'],[('numeric traits','include/positeigen.h NumTraits')],['Eigen matrices of posits'],OR,'')
CLAIM=sys.argv[1].split(',') if len(sys.argv)>1 else [x['id'] for x in P]
with open(ROOT+'/properties.jsonl','w') as f:
    for x in P:
        f.write(json.dumps(dict(id=x['id'],title=x['title'],statement=x['statement'],quantifier=dict(over=x['over'],text=x['text']),why_tests_cant=x['why'],
          anchors=dict(files=x['files'],mechanism=[dict(name=a,where=b) for a,b in x['mech']],observe_at=x['observe'],hook_needed=None)))+'\n')
m=dict(version=1,setup_cmd='true',
 checks=[dict(property=x['id'],quick_cmd='/verif/check %s quick'%x['id'],thorough_cmd='/verif/check %s thorough'%x['id'],evidence_file='evidence/%s.json'%x['id'],technique=x['tech'],level='exploration',level_note=x['note'] or 'adversarial and random operands, seeded') for x in P if x['id'] in CLAIM],
 not_applicable=[dict(property=x['id'],reason='check not built yet') for x in P if x['id'] not in CLAIM])
json.dump(m,open(ROOT+'/MANIFEST.json','w'),indent=1)
