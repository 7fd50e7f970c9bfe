#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))
N='src/bigint/nat.rs'; A='src/bigint/nat_amd64.rs'; V='src/bigint/nat_avx2.rs'; B='src/bigint/bigint.rs'
G='src/bigint/arith_generic.rs'; R='src/bigint/rat.rs'; F='src/bigint/float.rs'; M='src/bigint/nat_macro.rs'; BM='src/bigint/bigint_macro.rs'
p('C01','Addition and subtraction are exact',
  'For all operands that are numbers, Nat a+b is the exact sum and Nat a-b is the exact absolute difference |a-b| (sub_with_sign also reports whether a>=b), for a Nat or a u32 right operand. BigInt a+b, a-b and -a are the exact integer results. The operator form, the op-assign form and the reference-sharing form of an operation give the same number.',
  'all pairs of operands of any length and limb pattern, all sign combinations, right operand sharing storage with the left one or not',
  'the tests use a few hand-picked constants; carries and borrows that ripple through any number of limbs, unequal lengths and aliasing are unbounded',
  [A,B,M,BM],[('add_inner_by_adcx / sub_inner_with_sign_by_sbb carry chains',A),('sign case split in add_inner/sub_inner',B),('operator macros',M)])
p('C02','Multiplication and squaring are exact in every algorithm',
  'Nat a*b, Nat*u32, mul_karatsuba and sqr, and BigInt a*b and sqr, all return the exact product for every operand size, whichever internal algorithm the sizes select. The sign of a BigInt product is the product of the signs and a zero product is not negative.',
  'all pairs of operands of any length, so every algorithm threshold and every split, and in-place products whose operands share storage',
  'tests sample a few sizes; the algorithm changes at 20, 40 and 260 limbs and carries between partial products depend on all limbs',
  [V,N,G,B],[('AVX2 schoolbook product',V),('basic_mul, karatsuba, add_at, basic_sqr, karatsuba_sqr',N),('vector primitives',G)])
p('C03','Division and remainder satisfy the division identity',
  'For every non-zero divisor, Nat q=a/b and r=a%b satisfy a=q*b+r with 0<=r<b (also for a u32 divisor), BigInt / and % truncate toward zero with the remainder taking the sign of the dividend, and div_euclid/rem_euclid give 0<=r<|b|. A zero divisor panics and nothing else does.',
  'all dividends and non-zero divisors of any length and sign, divisor sharing storage with the dividend or not',
  'a few constant cases are tested; the shift-subtract loop has to be right for every quotient bit pattern and length difference',
  [N,B],[('div_inner, rem_inner, div_inner_basic, rem_inner_basic',N),('sign handling and Euclidean correction',B)])
p('C04','Shifts multiply and floor-divide by powers of two',
  'For every shift count n, x<<n is x*2^n and x>>n is floor(x/2^n), for Nat and for BigInt (an arithmetic shift for negative numbers), in the operator and the op-assign form.',
  'all numbers of any length and all shift counts, in particular multiples of the 32-bit limb size and counts beyond the length',
  'the stable tests shift by a few small counts; limb moves, the carry between limbs and the length of the result depend on count and length together',
  [N,B],[('shl_inner, shr_inner',N),('shr_inner on negatives',B)])
p('C05','Bitwise operators follow infinite two\'s complement',
  'Nat &, |, ^ and and_not act bit by bit on the binary representation, and Nat ! complements exactly the bits below the bit length. BigInt &, |, ^, ! and and_not equal the same operations on the infinite two\'s-complement representation of the operands.',
  'all pairs of operands of any length and sign combination, operands sharing storage or not',
  'tests contain few mixed-sign cases; each of the four sign cases has its own rewriting identity and limb length handling',
  [N,B],[('bitand_inner, bitor_inner, bitxor_inner, not_inner, and_not_assign',N),('sign case rewriting',B)])
p('C06','Results are canonical; equality and order are numeric',
  'Every number returned by the Nat and BigInt operations is in canonical form (no superfluous leading zero words, no negative zero), so two results are equal exactly when they denote the same integer, however they were computed. <, <=, >, >= and partial_cmp agree with the order of the integers, also against primitive integers.',
  'all histories of operations that produce the two compared values',
  'comparison trusts that every operation normalises its result, which no finite set of operation sequences establishes',
  [N,A,V,B,M],[('trim_head_zero in every operation',N),('partial_cmp_inner, PartialEq on limbs',N),('sign fix-ups',B)],over=('inputs','histories'))
p('C07','NaN is contagious and unordered',
  'Every Nat, BigInt and Rat arithmetic, bitwise, shift or power operation with a NaN operand returns NaN and never panics on its account. NaN compares unequal to and unordered with everything, itself included.',
  'all operations and all positions of a NaN operand, with every other operand',
  'tests contain almost no NaN operand; each operator has its own guard',
  [N,B,R,M],[('is_nan guards in operator macros',M),('is_nan guards',B)])
p('C08','Operators never modify their operands',
  'The non-assigning operators and methods of Nat, BigInt and Rat leave the value of every operand unchanged although operands are usually shallow clones sharing storage. An op-assign changes only its left operand (and values sharing its storage), and is computed as if the right operand had been copied first even when both share storage. A deep clone never changes with the original.',
  'all operations, all operand values and all ways operands share storage',
  'storage is shared behind safe-looking clones and mutated through shared references; tests look only at results, on operands they do not reuse',
  [N,A,V,B,M,BM],[('deep_clone before mutation in operator macros',M),('pointer-equality guards',N)],over=('inputs','histories'))
p('C09','Powers and modular exponentiation are exact',
  'pow(a,b) is a^b, pow_mod(a,b,n) and exp(a,b,n) are a^b mod n for every n>0 (a^b when n is 0), with 0^0 = 1. BigInt exp gives the representative in [0,|n|) for negative bases, and for negative exponents the power of the inverse when base and modulus are coprime.',
  'all bases, exponents and moduli: odd (Montgomery), even (windowed), one-limb and multi-limb exponents',
  'a handful of vectors; the Montgomery path, its final reductions and the window loop depend on every limb of modulus and exponent',
  [N,B],[('pow_inner, pow_mod_inner',N),('exp, exp_montogomery, exp_windowed, montgomery',N),('BigInt::exp',B)])
p('C10','gcd, Bezout, inverse and linear congruences are correct',
  'gcd(a,b) returns (d,x,y) with d the non-negative greatest common divisor and a*x+b*y=d for all integers a, b. For coprime a and n, mod_inverse returns x in [0,|n|) with a*x = 1 mod |n|. solve_mod_linear_equation returns exactly the gcd(a,n) solutions modulo |n| when gcd(a,n) divides b, and None otherwise.',
  'all integers of any sign and size',
  'few sampled triples; the coefficients follow the whole Euclidean recursion and sign cases',
  [B],[('gcd, gcd_extend, mod_inverse, solve_mod_linear_equation',B)])
p('C11','Byte and word conversions are value preserving',
  'from_le_bytes, from_be_bytes, the From conversions from bytes, words and primitive integers (signed ones included) denote the value of their input, leading zero bytes included. to_le_bytes/to_be_bytes and the copy_to forms give the shortest non-empty byte string of the (absolute) value, so converting back yields the same number.',
  'all byte strings, word vectors, primitive integers and numbers',
  'sampled lengths only; grouping of bytes into limbs and trimming depend on length modulo 4 and on the top bytes',
  [N,B,BM,M],[('from_le_or_be_bytes, copy_to_le, copy_to_be, From impls',N),('bigint_from_basici',BM)])
p('C12','Parsing denotes the written number',
  'Parsing a decimal, 0b, 0o or 0x digit string with at least one digit, an optional sign for BigInt and surrounding blanks gives exactly the number it denotes, for any number of digits. A string with a character that is no digit of its base is rejected with an error, never a panic or a wrong value.',
  'all strings in the accepted grammar and all strings containing an illegal character',
  'a few literals are tested; digits are regrouped into 32-bit limbs, octal digits straddle limbs at varying offsets',
  [N,B],[('check_base, from_dec_str, from_bin_str, from_oct_str, from_hex_str',N),('FromStr for BigInt',B)])
p('C13','Formatting prints the canonical digits and parses back',
  '{} prints the decimal digits, {:b} {:o} {:x} {:X} the binary, octal and hexadecimal digits without leading zeros (0 prints as 0), with a leading - for negatives and the 0b/0o/0x prefix exactly in the alternate form. Parsing the printed text gives the number back.',
  'all numbers and all formats',
  'few literals; inner limbs must be zero padded, octal digits straddle limbs',
  [N,B,M,BM,R],[('Display/Octal impls, nat_fmt',N),('bigint_fmt_impl',BM)])
p('C14','Integer square root is the floor',
  'Nat::sqrt and BigInt::sqrt of every non-negative n return r with r*r <= n < (r+1)*(r+1) and terminate; a negative BigInt gives NaN.',
  'all n >= 0','a few values; Newton iteration must stop exactly at the floor for every n, perfect squares and their neighbours included',
  [N,B],[('Nat::sqrt Newton loop',N)])
p('C15','Jacobi symbols and modular square roots are correct',
  'For odd positive b, jacobi(a,b) is the Jacobi symbol (a/b); for odd negative b it is (a/|b|), with the sign changed when a is negative too (the Kronecker extension); for b = 0 or a NaN operand it is None. For an odd prime p, mod_sqrt(a,p) returns Some(y) with y*y = a mod p and 0 <= y < p exactly when a is a square modulo p, and None otherwise.',
  'all integers a, all odd b, all odd primes p (p = 3 mod 4, 5 mod 8 and 1 mod 8 take different algorithms)',
  'a table of small symbols and a few primes are tested',
  [B],[('jacobi, mod_sqrt_*',B)])
p('C16','Range products and binomials are exact',
  'mul_range(a,b) is the product of all integers in [a,b] (1 when empty, 0 when it contains 0, with the right sign for negative ranges), for all i64 bounds. binomial(n,k) is C(n,k) for 0 <= k <= n < i64::MAX.',
  'all bounds','a few small ranges; factors above 2^32 and negative ranges take their own paths',
  [B,N],[('mul_range, binomial',B),('mul_range with split factors',N)])
p('C17','Rationals are kept in lowest terms and computed exactly',
  'Every Rat produced by construction, parsing, conversion or +,-,*,/, neg, abs, inv is in lowest terms with a positive denominator (0 is 0/1), and is the exact rational result. ==, <, > and partial_cmp agree with the order of the rationals. A zero denominator or division by zero is refused.',
  'all numerators and denominators of any size and sign, all operation sequences',
  'few fractions are tested; normalisation has special cases for zero, one and shared operands',
  [R],[('norm, scale_denom, mul_denom, cmp_inner',R)],over=('inputs','histories'))
p('C18','Rat and binary floating point convert exactly or to nearest even',
  'Converting a finite f64 or f32 to Rat is exact, non-finite values give NaN. to_f64/to_f32 return the nearest floating-point value, ties to even, denormals and overflow to infinity included, and the flag is true exactly when the result equals the rational.',
  'all finite f32/f64 bit patterns and all rationals',
  'few constants; rounding, denormal and overflow boundaries are many',
  [R,'src/bigint/util.rs'],[('from_f64, quo_to_f32, quo_to_f64',R),('ldexp','src/bigint/util.rs')])
p('C19','Deterministic generators follow their published recurrences',
  'From a given seed the linear congruential generator yields x(n+1) = (a*x(n)+c) mod m, the Mersenne Twister yields the standard sequence for its parameters (the mt19937 macros give the reference outputs), and the lagged Fibonacci generator yields x(i) = (x(i-s)-x(i-r)-carry) mod 2^w, for every accepted parameter set and every number of draws. Resetting with the same seed restarts the same sequence; invalid parameters are refused.',
  'all accepted parameters, all seeds, all positions in the sequence',
  'the stable tests contain no generator test',
  ['src/rand/linear_congruential_rand.rs','src/rand/mersenne_twister_rand.rs','src/rand/lagged_fibonacci_rand.rs','src/rand/mod.rs'],
  [('gen','src/rand/linear_congruential_rand.rs'),('check_init, gen_rand, gen','src/rand/mersenne_twister_rand.rs'),('check_init, gen','src/rand/lagged_fibonacci_rand.rs')],over=('inputs','histories'))
p('C20','Random numbers stay in their range',
  'For every bound and every source, Nat::random returns a canonical number in [0, bound) and every value of the range is reachable; BigInt::random of a negative bound lies in (bound, 0]. A bound of 0 or NaN gives NaN.',
  'all bounds and all source sequences, failing sources included',
  'the stable tests do not call it; rejection sampling depends on the bound and the whole source sequence',
  [N,B],[('random_inner mask and rejection loop',N)],over=('inputs','histories'))
p('C21','Primality test and prime generation are reliable',
  'probably_prime_test returns true for every prime, whatever the random source yields, and false for 0, 1, NaN, every even number above 2 and every other number with a prime factor up to 53 other than itself. generate_prime returns an odd number of exactly the requested bit length that passes the test, and refuses lengths below 2.',
  'all numbers and all random sources',
  'the existing tests of this part are probabilistic and excluded as flaky',
  [N],[('probably_prime_test, prime_validate_by_miller_rabin, prime_validate_by_lucas, generate_prime',N)],over=('inputs','histories'))
p('C22','Bit queries agree with the binary representation',
  'bits_len is the length of the binary representation of the absolute value (1 for 0, 0 for NaN). is_set_bit(i) is bit i (of the two\'s complement for a negative BigInt) for i < bits_len and None beyond, and trailling_zeros of a non-zero number is the exponent of two dividing it.',
  'all numbers and indices','sampled numbers only','src/bigint/nat.rs src/bigint/bigint.rs'.split(),
  [('bits_len, is_set_bit, trailling_zeros',N),('is_set_bit',B)])
p('C23','Float operations round correctly',
  'Float addition, subtraction, multiplication and division of finite numbers return the exact result rounded once to the result precision in the result rounding mode, and accuracy() tells whether the stored result is below, equal to or above the exact one.',
  'all finite floats, precisions and the six rounding modes',
  'Float has no stable test',[F],[('round, add/sub/mul/div',F)])
p('C24','Float special values, order and conversions',
  'Float arithmetic on zeros, infinities and NaN follows IEEE 754, comparison is numeric, and conversions to and from integers, f32/f64, Nat, BigInt, Rat and decimal text preserve the value up to the documented rounding.',
  'all floats and all conversions','Float has no stable test',[F,'src/bigint/decimal.rs','src/bigint/float_fmt.rs'],[('conversions, cmp, FromStr',F)])
p('C25','Unsafe kernels stay inside their buffers',
  'No public Nat or BigInt operation reads or writes outside the storage of its operands, result and temporaries, and none panics except on the documented division by zero.',
  'all operands of any length','out-of-bounds accesses through raw pointers need particular lengths and may not crash a test',
  [N,G,A,V],[('pointer arithmetic in karatsuba, basic_mul, basic_sqr, montgomery, add_at',N),('pointer kernels',G),('AVX2 loads and stores',V)])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
