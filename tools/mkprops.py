#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

prop("C01", "Unsigned addition, subtraction and absolute difference are exact",
 "For all unsigned big integers a, b and every u32 k, add, sub, abs_diff, their u32 forms, their in-place forms and the iterator Sum give exactly the mathematical a+b, a-b, |a-b|. Subtraction of a larger number panics instead of returning a value, and no other input panics.",
 ["inputs"], "all pairs of non-negative integers of any length, in particular carry/borrow chains that run through whole limbs and change the length",
 "Tests sample a few dozen pairs plus random ones; a carry or borrow that must cross a particular limb pattern (0xffffffff / 0 runs, length change, unequal lengths) has negligible probability under random sampling.",
 ["src/ubigint/arith/add.rs", "src/ubigint/arith/sub.rs", "src/ubigint/arith.rs"],
 [("carry propagation in add_mut/add_u32_mut", "src/ubigint/arith/add.rs"), ("borrow propagation in sub_mut/sub_u32_mut", "src/ubigint/arith/sub.rs")],
 ["UBigInt::add*", "UBigInt::sub*", "UBigInt::abs_diff*", "Sum for UBigInt"])

prop("C02", "Unsigned multiplication, powers and limb shifts are exact at every size",
 "For all unsigned big integers a, b, mul (including very long operands), mul_u32, mul_pow2, pow_u32, pow2, exp2, shift_left/shift_right/slice_right and the iterator Product, with their in-place forms, give exactly a*b, a*k, a*2^k, a^k, 2^k, a*2^(32n), floor(a/2^(32n)), a mod 2^(32n). The result does not depend on which internal algorithm the operand lengths select.",
 ["inputs"], "all operands, in particular lengths on both sides of the algorithm thresholds, unequal lengths, zero limbs inside, limbs of all ones",
 "The fast path is reached only above 64 limbs per operand; the tests visit few sizes and mostly dense random digits.",
 ["src/ubigint/arith/mul.rs", "src/ubigint/arith/pow.rs", "src/ubigint/funcs/shift.rs", "src/ubigint/funcs/exp.rs", "src/ubigint/arith.rs", "src/utils.rs"],
 [("schoolbook / Karatsuba split", "src/ubigint/arith/mul.rs"), ("square and multiply", "src/ubigint/arith/pow.rs"), ("carry normalisation v64_to_v32", "src/utils.rs")],
 ["UBigInt::mul*", "UBigInt::pow*", "UBigInt::shift_*", "UBigInt::slice_right*", "Product for UBigInt"])

prop("C03", "Unsigned division and remainder are the Euclidean quotient and remainder",
 "For all unsigned big integers a and b > 0, div and rem (with the u32, in-place and power-of-two forms) return the unique q and r with a = q*b + r and 0 <= r < b, and they terminate. Division or remainder by zero panics.",
 ["inputs"], "all a and b > 0: every combination of lengths, leading limbs near 0, 2^31 and 2^32-1, quotients that need correction steps",
 "The estimate-and-correct loop has several shape-dependent branches (length difference, one/two/many-limb divisor, upper and lower estimates); tests sample few of them and random digits almost never need the correction branches.",
 ["src/ubigint/arith/div.rs", "src/ubigint/arith/rem.rs"],
 [("approximate-then-correct long division", "src/ubigint/arith/div.rs"), ("rem via q*b subtraction and u32 modular fold", "src/ubigint/arith/rem.rs")],
 ["UBigInt::div*", "UBigInt::rem*"])

prop("C04", "Every result is in canonical form, after any history of operations",
 "Every UBigInt, BigInt and Ratio the library returns or leaves in place after a valid history of operations is in canonical form: no most-significant zero limb, zero never negative, denominators positive, numerator and denominator coprime, zero as 0/1. Hence two equal numbers always compare, hash and print identically, whatever computations produced them.",
 ["histories", "inputs"], "all sequences of public operations starting from canonical values, all operand values",
 "Tests check validity of individual results with an internal helper; a non-canonical value produced by one operation only shows when a later operation or derived equality consumes it.",
 ["src/ubigint.rs", "src/bigint.rs", "src/ratio.rs", "src/utils.rs"],
 [("remove_suffix_0", "src/utils.rs"), ("sign normalisation of zero", "src/bigint"), ("Ratio::fit and the hand-inlined gcd reductions", "src/ratio.rs, src/ratio/arith")],
 ["into_raw of every result", "derived Eq/Hash"])

prop("C05", "In-place, by-reference and machine-integer variants agree",
 "For every operation that exists in several forms (returning / in-place, big operand / u32 or i32 operand, UBigInt / BigInt / Ratio-by-integer), all forms give the same value on the same arguments, an in-place call leaves the receiver holding exactly what the returning form returns, and a returning call leaves its operands unchanged. They also agree on when to panic.",
 ["inputs", "histories"], "all operand values (including self-equal and aliased-by-clone operands, 0, the extreme machine integers) and all interleavings of in-place and returning calls",
 "The forms are independent implementations for many operations, and tests compare them only on a handful of values, usually not at the extreme machine integers.",
 ["src/ubigint/arith", "src/bigint/arith", "src/ratio/arith", "src/bigint/comp.rs", "src/ratio/comp.rs"],
 [("paired implementations *_mut / *_u32 / *_i32 / *_bi", "src/*/arith")],
 ["results of paired calls"])

prop("C06", "Signed integer arithmetic is exact, division truncates toward zero",
 "For all signed big integers a, b and every i32 k, add, sub, mul, neg, abs, pow, mul_pow2 and shifts are exact; div truncates toward zero and rem has the dividend's sign with a = (a/b)*b + a%b, in all forms (big, i32, in-place). Division or remainder by zero panics and nothing else does.",
 ["inputs"], "all pairs of integers, all four sign combinations, zero, equal magnitudes, i32::MIN",
 "The sign/magnitude case analysis multiplies every operation by the sign combinations, equal magnitudes and zero; tests sample small values of some of them.",
 ["src/bigint/arith", "src/bigint/funcs.rs"],
 [("sign/magnitude case analysis", "src/bigint/arith/add.rs, sub.rs, mul.rs, div.rs, rem.rs")],
 ["BigInt arithmetic methods"])

prop("C07", "Comparisons form the numeric total order on every number type",
 "For UBigInt, BigInt, Ratio and F192, lt, gt, eq, neq, leq, geq, comp, their u32/i32 forms, lt_one/gt_one and the Ord/PartialOrd/Eq traits report exactly the order of the numbers represented. So the relation is total, antisymmetric and transitive, and sorting or taking min/max is correct; comparisons never panic.",
 ["inputs"], "all pairs of values: same length with one differing limb anywhere, equal values, opposite signs, machine-integer right operands at their extremes, values far beyond machine range",
 "Each comparison is a separate loop; tests compare a few pairs, and never machine-integer comparisons against huge numbers.",
 ["src/ubigint/comp.rs", "src/bigint/comp.rs", "src/ratio/comp.rs", "src/fp192/comp.rs"],
 [("limb-wise comparison from the top", "src/ubigint/comp.rs"), ("sign dispatch", "src/bigint/comp.rs"), ("cross multiplication", "src/ratio/comp.rs"), ("exponent/digits comparison", "src/fp192/comp.rs")],
 ["lt/gt/eq/neq/leq/geq/comp", "Ord::cmp", "PartialOrd::partial_cmp"])

prop("C08", "Rational and complex arithmetic is exact field arithmetic",
 "For all rationals a, b and integers k, add, sub, mul, div, pow_i32, neg, abs, reci and their BigInt, i32 and in-place forms return exactly the mathematical result, and division by zero or the reciprocal of zero panics instead of producing a number. Construction from a numerator and denominator denotes their quotient whatever the signs and common factors, common_denom returns the two values over one common positive denominator, and complex addition is componentwise. shrink(limit) changes the value by a relative error below 2^-60 at most, keeps its sign, leaves a number that already fits alone, and reports success exactly when numerator and denominator end up within the limit (it refuses limits below 3).",
 ["inputs"], "all rationals, any sign, with and without common factors across the operands, integers, zero, i32::MIN",
 "The in-place integer forms reduce by hand-written gcd steps whose errors show only for operands sharing particular factors or signs.",
 ["src/ratio/arith", "src/ratio/funcs.rs", "src/ratio/convert.rs", "src/complex/arith/add.rs"],
 [("cross-multiply and fit()", "src/ratio/arith/add.rs, mul.rs, div.rs, src/ratio.rs"), ("hand-inlined gcd in mul_bi_mut/div_bi_mut", "src/ratio/arith/mul.rs, div.rs")],
 ["Ratio arithmetic methods", "Ratio::from_denom_and_numer*", "common_denom", "Complex::add*"])

prop("C09", "Rational rounding functions satisfy their defining inequalities",
 "For every rational x: truncate is x rounded toward zero, floor is the greatest integer not above x, round is the nearest integer with halves away from zero, frac(x) = x - truncate(x), and truncate_and_frac, the _bi and in-place forms agree with them. Conversion of a rational to an integer type truncates.",
 ["inputs"], "all rationals, in particular negative ones, exact integers, exact halves, values in (-1, 1)",
 "Tests use a few small values; the negative, exact and half cases are separate branches for each function.",
 ["src/ratio/funcs.rs", "src/ratio/convert/into.rs", "src/bigint/convert/from.rs"],
 [("truncate/frac/floor/round", "src/ratio/funcs.rs")],
 ["Ratio::truncate*, floor*, round*, frac*, truncate_and_frac", "From<&Ratio> for BigInt and machine integers"])

prop("C10", "Machine-integer conversions are exact or refused",
 "Converting any machine integer or bool into UBigInt, BigInt or Ratio preserves its value, including each type's MIN and MAX. Converting a big number to a machine integer type returns exactly that number when the type can represent it and an error otherwise; it never wraps, never panics, and negative numbers never become unsigned.",
 ["inputs"], "all machine integers of all widths, all big numbers, in particular those at and next to each type's bounds",
 "Tests cover a few values per type; the interesting values are exactly the bounds of ten types in three big types.",
 ["src/ubigint/convert.rs", "src/ubigint/convert/from.rs", "src/ubigint/convert/into.rs", "src/bigint/convert.rs", "src/bigint/convert/from.rs", "src/bigint/convert/into.rs", "src/ratio/convert/from.rs", "src/ratio/convert/into.rs"],
 [("range checks in to_u32..to_i128", "src/ubigint/convert.rs, src/bigint/convert.rs"), ("TryFrom chains through intermediate widths", "src/*/convert/into.rs")],
 ["from_*/to_* methods", "From/TryFrom impls"])

prop("C11", "Integer text: parsing accepts exactly the grammar, printing round-trips",
 "Parsing a string as UBigInt or BigInt accepts exactly the documented decimal, 0x, 0o and 0b grammar (underscore separators, no redundant leading zeros in decimal, optional minus for BigInt), yields the number the string denotes, and returns an error (never a panic or a wrong number) for everything else. Printing in base 10, 16, 8 or 2, with or without prefix, yields the canonical numeral of the value, and parsing it back gives the value.",
 ["inputs"], "all strings (including empty, sign-only, prefix-only, non-ASCII, misplaced underscores) and all integers, in particular those whose digit groups contain zeros",
 "Strings are unbounded; the tests list a few dozen valid and invalid ones, and printing errors (lost zero padding inside a digit group) need particular digit patterns.",
 ["src/ubigint/convert.rs", "src/bigint/convert.rs"],
 [("numeral state machine", "src/ubigint/convert.rs from_string"), ("digit-group padding", "src/ubigint/convert.rs to_string_dec/hex/oct/bin")],
 ["from_string, FromStr, TryFrom<&str/String>", "to_string_*, Display, LowerHex, Octal, Binary"])

prop("C12", "Rational text: decimal and exponent notation denotes its exact value",
 "Parsing a string as a Ratio yields exactly the rational the decimal numeral (optional minus, fraction, exponent of either sign, underscores; integers in 0x/0o/0b) denotes, in lowest terms, and an error, never a panic, for a string that is no numeral. to_ratio_string prints numerator/denominator (just the numerator for integers) exactly.",
 ["inputs"], "all strings over digits, sign, dot, e/E, underscore and other characters; all rationals",
 "Tests sample a few dozen strings; leading/trailing zeros, empty fraction or exponent parts, exponent sign and their combinations are unbounded.",
 ["src/ratio/convert.rs"],
 [("numeral splitting and scaling by powers of ten", "src/ratio/convert.rs from_string")],
 ["Ratio::from_string, FromStr, TryFrom<&str>", "Ratio::to_ratio_string"])

prop("C13", "Approximate decimal output is close to the value and within its length",
 "For every rational x and length limit n, to_approx_string(n), Display/to_string and to_scientific_notation, and to_scientific_notation of integers, print a well-formed decimal numeral whose value has x's sign and differs from x by less than one unit of the last digit position the limit allows, within the advertised length (at least eight significant digits' worth is kept when the exponent notation is used, four beyond 10^9990 or below 10^-9990). They never panic.",
 ["inputs"], "all rationals: very large, very small, just below a power of ten, exactly representable, negative, zero; all length limits",
 "The tests fix a few dozen outputs; errors appear at digit carry, exponent estimates near powers of ten and particular length limits.",
 ["src/ratio/convert.rs", "src/ubigint/convert.rs", "src/bigint/convert.rs"],
 [("digit generation with log2 estimates", "src/ratio/convert.rs to_approx_string"), ("_to_scientific_notation", "src/ubigint/convert.rs")],
 ["Ratio::to_approx_string/to_string/to_scientific_notation", "UBigInt/BigInt::to_scientific_notation, LowerExp"])

prop("C14", "IEEE-754 conversions: exact from floats, nearest to floats",
 "Converting a finite f32 or f64 (normal, subnormal, signed zero) to Ratio is exact, and NaN and infinities are refused. Converting a rational to f32 or f64 returns a nearest representable float and refuses values beyond the finite range, so converting a finite float to Ratio and back returns the same number; inspect_ieee754_* returns the sign, exponent and fraction that make up the float.",
 ["inputs"], "all 2^32 f32 and 2^64 f64 bit patterns; all rationals, in particular those next to rounding boundaries, powers of two, the subnormal range and the overflow threshold",
 "Tests sweep random bit patterns and random ratios; rounding that carries into the exponent, subnormal rounding and the overflow edge are measure-zero for them.",
 ["src/ratio/convert/ieee754.rs", "src/bigint/convert/from.rs", "src/bigint/convert/into.rs", "src/ubigint/convert/from.rs", "src/ubigint/convert/into.rs"],
 [("bit assembly and rounding", "src/ratio/convert/ieee754.rs")],
 ["Ratio::from_ieee754_*/to_ieee754_*", "inspect_ieee754_*", "TryFrom<f32/f64>"])

prop("C15", "Integer square root, logarithm and gcd satisfy their definitions",
 "For every non-negative n, sqrt returns s with s^2 <= n < (s+1)^2 (for a negative BigInt, minus the root of its magnitude), log2 returns floor(log2 n), log2_accurate is log2(n)*2^32 to within its stated accuracy and exp2_accurate inverts it, and gcd_ubi/gcd_bi/gcd_i32 return the non-negative greatest common divisor, with gcd(n, 0) = |n|. All of them terminate without panicking, except gcd_i32 where the result 2^31 is no i32.",
 ["inputs"], "all integers: perfect squares and their neighbours, powers of two and their neighbours, all lengths, pairs with long or short Euclidean chains, zero",
 "Tests loop over small ranges and random numbers; the neighbours of large squares and powers of two are what a rounding error in the iteration breaks.",
 ["src/ubigint/funcs.rs", "src/ubigint/funcs/log.rs", "src/ubigint/funcs/exp.rs", "src/bigint/funcs.rs", "src/utils.rs"],
 [("Newton/bisection iteration in sqrt", "src/ubigint/funcs.rs"), ("Euclid with u32/u64/u128 fast paths", "src/ubigint/funcs.rs gcd_ubi"), ("leading-limb logarithm", "src/ubigint/funcs/log.rs")],
 ["sqrt, log2, log2_accurate, exp2_accurate, gcd_*"])

prop("C16", "Factorial, Fibonacci, primality and factorisation are correct",
 "factorial(n) is n!, fibonacci(n) satisfies its recurrence from F(0)=0, F(1)=1, is_prime answers true exactly for primes, and prime_factorial returns exactly the prime factors of n in ascending order with multiplicity ([n] itself for 0 and 1). They do so for every n, on UBigInt and BigInt alike.",
 ["inputs"], "all n: products of two large primes, squares of primes, powers of two, numbers around 2^32, small n including 0 and 1",
 "Tests enumerate small n and a few large ones; squares of primes, semiprimes and values around machine-word boundaries are the exceptional cases.",
 ["src/ubigint/funcs.rs", "src/bigint/funcs.rs"],
 [("trial division with u32/u64 fast paths", "src/ubigint/funcs.rs"), ("iterated products and matrix recurrence", "src/ubigint/funcs.rs")],
 ["factorial, fibonacci, is_prime, prime_factorial"])

prop("C17", "Rational approximation functions converge to the real function",
 "For every argument in its domain and every iteration count, the *_iter functions (sqrt, cbrt, exp, ln, log, pow, sin, cos, tan, asin, acos, atan) and the constants pi, e, ln2 return a rational within the truncation error of that many terms of their series, so that the error tends to zero as the count grows (the tables of pi and ln2 hold 255 and 200 terms). Special arguments (0, 1, negative values, multiples of pi, |x| > 1) give the mathematically right value or the documented convention (sqrt_iter of a negative number is the root of its magnitude); sinh, cosh and tanh are unimplemented and not covered.",
 ["inputs"], "all rational arguments in the domain (every range-reduction branch) and all iteration counts",
 "Tests compare a few arguments with f64 at 1e-9 or so for one iteration count; wrong range reduction or a wrong late term is invisible there.",
 ["src/ratio/funcs", "src/ratio/pi.rs", "src/ratio/e.rs", "src/ratio/ln2.rs", "src/consts.rs"],
 [("Taylor/Newton iterations with range reduction", "src/ratio/funcs/*.rs"), ("precomputed constant tables", "src/ratio/pi.rs, ln2.rs, e.rs")],
 ["*_iter functions", "pi_const, e_const, ln2_const"])

prop("C18", "192-bit float arithmetic is accurate to the last digits and well formed",
 "For all F192 values a, b in range, add, sub, mul, div, mul_i32 and div_i32 return a normalised F192 whose value differs from the exact result by at most one unit in the last place for add and sub, 4 for mul, 10 for div and 1 for mul_i32 and div_i32; abs, neg, shl, shr and step_epsilon are exact. Division by zero and exponent overflow panic, exponent underflow gives zero.",
 ["inputs"], "all pairs: equal and far-apart exponents, cancelling subtraction, digits at both ends of the mantissa range, all signs, zero",
 "Tests compare with f64 or Ratio on random inputs with loose tolerance; mantissa overflow and exponent-difference boundaries are rare.",
 ["src/fp192.rs", "src/fp192/arith"],
 [("128-bit mantissa alignment, carry and renormalisation", "src/fp192/arith/add.rs, mul.rs, div.rs")],
 ["F192 arithmetic methods"])

prop("C19", "192-bit float conversions and text round-trip",
 "Every machine integer converts to F192 exactly when it has at most 128 significant bits, finite f32/f64 convert exactly, a rational converts with at most a few units in the last place of error, and F192 converts to Ratio exactly, to integers by truncation with an error when out of range, and to f32/f64 with float accuracy. Its compact text encoding (code13) round-trips to the nearest 65-bit mantissa and parsing a decimal or prefixed numeral gives its value to F192 precision, with errors for non-numerals. Decimal printing (to_approx_string, Display) shows the value to 19 significant digits, or 20 decimals below 1, at every exponent.",
 ["inputs"], "all integers, floats, rationals and F192 values in range, all byte strings and strings",
 "Tests sample a few values per conversion.",
 ["src/fp192/convert.rs", "src/fp192/convert/string.rs"],
 [("mantissa normalisation from u128/Ratio", "src/fp192/convert.rs"), ("code13 packing", "src/fp192/convert/string.rs")],
 ["From/TryFrom impls of F192", "FromStr", "into_code13/from_code13", "to_approx_string"])

prop("C20", "192-bit float rounding and elementary functions match the real functions",
 "floor, ceil, round, truncate, frac and is_integer of every F192 are exact, and sqrt, ln, log2, pow2, powi, pow, sin, cos, tan, asin, acos, atan return the real function's value on their whole domain: sqrt within 4 units in the last place, powi within an error proportional to the exponent, log2 and ln within 2^-116, sin, cos and tan within 2^-71, pow2 and pow within 2^-48 relative, asin, acos and atan within 10^-6. Powers of two too small for an F192 are zero.",
 ["inputs"], "all F192 values in each function's domain, on every range-reduction branch",
 "Tests compare a few dozen arguments with f64.",
 ["src/fp192/funcs.rs", "src/fp192/funcs", "src/fp192/consts.rs"],
 [("bit-mask rounding", "src/fp192/funcs.rs"), ("series with range reduction and constant tables", "src/fp192/funcs/*.rs, consts.rs")],
 ["F192 function methods"])

prop("C21", "Matrix operations are exact linear algebra",
 "For all rational matrices: add, scalar and matrix multiplication and transpose are the usual ones, the determinant is the exact determinant at every size, and inverse returns B with A*B = B*A = I exactly when A is square with non-zero determinant. Shape mismatches, non-square and singular matrices are reported as the corresponding error and never as a wrong result.",
 ["inputs"], "all shapes and entries, in particular singular matrices, permutation matrices, zero pivots, sizes handled by the special formulas and by the general one",
 "Tests try a few matrices per size; a sign error in one cofactor or a transposed index shows only for asymmetric matrices of that size.",
 ["src/matrix.rs", "src/matrix/det.rs", "src/matrix/inv.rs", "src/matrix/utils.rs"],
 [("closed-form and cofactor determinants", "src/matrix/det.rs"), ("adjugate inverse", "src/matrix/inv.rs")],
 ["Matrix methods"])

prop("C22", "Polynomial calculus and interpolation are exact",
 "Polynomial evaluation, scalar multiplication and differentiation are exact and printing shows exactly the terms; from_points returns a polynomial of minimal degree through all given points (ZeroDeterminant when there are none or two share an abscissa), and cubic_2_points, quadratic_3_points and linear_2_points meet all their value and slope conditions. Newton's method step is x - p(x)/p'(x). (Polynomial add and mul are unimplemented and not covered.)",
 ["inputs"], "all coefficient vectors (leading zeros, constants, zero polynomial) and all point sets with distinct abscissae",
 "Tests use a few small integer polynomials; degenerate configurations (collinear points, zero coefficients) and non-integer coefficients are unbounded.",
 ["src/poly.rs", "src/poly/from_points.rs"],
 [("Horner evaluation, coefficient calculus", "src/poly.rs"), ("Vandermonde inverse and closed forms", "src/poly/from_points.rs")],
 ["Polynomial methods", "from_points*, cubic_2_points, quadratic_3_points, linear_2_points"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
