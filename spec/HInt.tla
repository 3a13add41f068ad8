-------------------------------- MODULE HInt --------------------------------
(***************************************************************************)
(* UBigInt (family "u") and BigInt (family "i"): what every public         *)
(* operation must answer.  In-place operations are not distinguished here: *)
(* they answer what the returning operation of the same name answers, and  *)
(* the calculator stores the answer in the receiver.                       *)
(***************************************************************************)
EXTENDS HText, HReal

Bits32(n) == ZPow2(32 * n)
LimbLen(z) == IF Sgn(z) = 0 THEN 1 ELSE (ZBits(z) + 31) \div 32

(* x^k; the exponent of 0, 1 and -1 may be any u32 *)
PowZ(x, k) == IF ZAbs(x) = ZOne THEN (IF Sgn(x) > 0 \/ Sgn(ZRem(k, ZTwo)) = 0 THEN ZOne ELSE x)
              ELSE IF Sgn(x) = 0 THEN (IF Sgn(k) = 0 THEN ZOne ELSE ZZero)
              ELSE ZPow(x, ToInt(k))

CmpResult(n, d) ==   \* n: name of the relation, d: sign of the difference
    CASE n \in {"lt", "op_lt", "lt_u32", "lt_i32"} -> OkB(d < 0)
      [] n \in {"gt", "op_gt", "gt_u32", "gt_i32"} -> OkB(d > 0)
      [] n \in {"eq", "op_eq", "eq_u32", "eq_i32", "hash_eq"} -> OkB(d = 0)
      [] n \in {"neq", "op_ne", "neq_u32", "neq_i32"} -> OkB(d # 0)
      [] n \in {"leq", "op_le", "leq_u32", "leq_i32"} -> OkB(d <= 0)
      [] n \in {"geq", "op_ge", "geq_u32", "geq_i32"} -> OkB(d >= 0)
      [] n \in {"comp", "cmp", "partial_cmp", "comp_u32", "comp_i32"} -> OkO(d)

BigCmp == {"lt", "gt", "eq", "neq", "leq", "geq", "comp", "cmp", "partial_cmp",
           "op_lt", "op_gt", "op_eq", "op_ne", "op_le", "op_ge", "hash_eq"}
SmallCmpU == {"lt_u32", "gt_u32", "eq_u32", "neq_u32", "leq_u32", "geq_u32", "comp_u32"}
SmallCmpI == {"lt_i32", "gt_i32", "eq_i32", "neq_i32", "leq_i32", "geq_i32", "comp_i32"}

(* width of a machine integer type by the suffix of the operation's name   *)
MachineWidth(n) ==
    CASE n \in {"as_u8", "own_u8", "as_i8", "own_i8"} -> 8
      [] n \in {"as_u16", "own_u16", "as_i16", "own_i16"} -> 16
      [] n \in {"as_u32", "own_u32", "as_i32", "own_i32", "to_u32", "to_i32"} -> 32
      [] n \in {"as_u64", "own_u64", "as_i64", "own_i64", "as_usize", "own_usize", "as_isize", "own_isize", "to_u64", "to_i64"} -> 64
      [] n \in {"as_u128", "own_u128", "as_i128", "own_i128", "to_u128", "to_i128"} -> 128
ToUnsigned == {"as_u8", "own_u8", "as_u16", "own_u16", "as_u32", "own_u32", "as_u64", "own_u64", "as_usize", "own_usize", "as_u128", "own_u128", "to_u32", "to_u64", "to_u128"}
ToSigned == {"as_i8", "own_i8", "as_i16", "own_i16", "as_i32", "own_i32", "as_i64", "own_i64", "as_isize", "own_isize", "as_i128", "own_i128", "to_i32", "to_i64", "to_i128"}
ToMachine(n, z) == IF n \in ToUnsigned
                   THEN (IF FitsUnsigned(z, MachineWidth(n)) THEN OkN(z) ELSE Err)
                   ELSE (IF FitsSigned(z, MachineWidth(n)) THEN OkN(z) ELSE Err)
OfMachine == {"from_u32", "from_u64", "from_u128", "from_i32", "from_i64", "from_i128"}
             \cup {"of_u8", "of_u16", "of_u32", "of_u64", "of_u128", "of_usize", "of_i8", "of_i16", "of_i32", "of_i64", "of_i128", "of_isize", "of_bool"}
             \cup {"of_ref_u8", "of_ref_u16", "of_ref_u32", "of_ref_u64", "of_ref_u128", "of_ref_usize", "of_ref_i8", "of_ref_i16", "of_ref_i32", "of_ref_i64", "of_ref_i128", "of_ref_isize", "of_ref_bool"}

Printers == {"dec", "display", "hex", "hexp", "fmt_x", "fmt_xp", "oct", "octp", "fmt_o", "fmt_op", "bin", "binp", "fmt_b", "fmt_bp"}
Show(n, z) ==
    Ok(S(CASE n \in {"dec", "display"} -> IntText(z, 10, FALSE)
           [] n \in {"hex", "fmt_x"} -> IntText(z, 16, FALSE)
           [] n \in {"hexp", "fmt_xp"} -> IntText(z, 16, TRUE)
           [] n \in {"oct", "fmt_o"} -> IntText(z, 8, FALSE)
           [] n \in {"octp", "fmt_op"} -> IntText(z, 8, TRUE)
           [] n \in {"bin", "fmt_b"} -> IntText(z, 2, FALSE)
           [] n \in {"binp", "fmt_bp"} -> IntText(z, 2, TRUE)))
Parsers == {"from_string", "from_str", "try_from_str", "try_from_string"}

RECURSIVE SumFrom(_, _)
SumFrom(a, k) == IF k > Len(a) THEN ZZero ELSE ZAdd(a[k][2], SumFrom(a, k + 1))
RECURSIVE ProdFrom(_, _)
ProdFrom(a, k) == IF k > Len(a) THEN ZOne ELSE ZMul(a[k][2], ProdFrom(a, k + 1))

(* F(0) = 0, F(1) = 1, F(k+2) = F(k+1) + F(k); pairs <<F(k), F(k+1)>>.      *)
RECURSIVE FibPair(_)
FibPair(k) == IF k = 0 THEN <<ZZero, ZOne>>
              ELSE LET h == FibPair(k \div 2)
                       a == ZMul(h[1], ZSub(ZMul(ZTwo, h[2]), h[1]))        \* F(2m)
                       b == ZAdd(ZMul(h[1], h[1]), ZMul(h[2], h[2]))        \* F(2m+1)
                   IN  IF k % 2 = 0 THEN <<a, b>> ELSE <<b, ZAdd(a, b)>>
Fib(k) == FibPair(k)[1]

(* s is the sorted rearrangement of the values in a *)
Occurs(x, a) == Len(SelectSeq(a, LAMBDA y : y = x))
IsSorted(a, s, cmp(_, _)) ==
    /\ Len(s) = Len(a)
    /\ \A k \in 1..(Len(s) - 1) : cmp(s[k], s[k + 1]) <= 0
    /\ \A k \in 1..Len(s) : Occurs(s[k], s) = Occurs(s[k], a)

(* the prime factors of z in ascending order with multiplicity; 0 and 1    *)
(* have no factorisation and are reported as themselves                    *)
IsFactorisation(z, fs) ==
    IF ZLe(z, ZOne) THEN fs = <<z>>
    ELSE /\ \A k \in 1..Len(fs) : ZIsPrime(fs[k])
         /\ \A k \in 1..(Len(fs) - 1) : ZLe(fs[k], fs[k + 1])
         /\ ProdFrom([k \in 1..Len(fs) |-> <<"u", fs[k]>>], 1) = z

---------------------------------------------------------------------------
(* log2_accurate(n) is floor(log2(n) * 2^32).  By repeated squaring, in    *)
(* interval arithmetic with 160 bits: <<k, lo, hi>> says that the binary   *)
(* digits of log2 found so far are k and lo <= remaining power <= hi, as   *)
(* multiples of 2^-160 in [1, 2).                                          *)
LogPrec == 160
RECURSIVE LogStep(_, _, _, _)
LogStep(k, lo, hi, i) ==
    IF i = 0 THEN k
    ELSE LET l2 == ZFloor(ZMul(lo, lo), ZPow2(LogPrec))
             h2 == ZAdd(ZFloor(ZMul(hi, hi), ZPow2(LogPrec)), ZOne)
             two == ZPow2(LogPrec + 1)
         IN  IF ZLe(two, l2)
             THEN LogStep(ZAdd(ZMul(ZTwo, k), ZOne), ZFloor(l2, ZTwo), ZAdd(ZFloor(h2, ZTwo), ZOne), i - 1)
             ELSE IF ZLt(h2, two) THEN LogStep(ZMul(ZTwo, k), l2, h2, i - 1)
             ELSE <<>>                             \* too close to call
Log2Fix(z) == LET b == ZBits(z) - 1
                  sc == ZMul(z, ZPow2(LogPrec))
                  lo == ZFloor(sc, ZPow2(b))
                  hi == IF ZMul(lo, ZPow2(b)) = sc THEN lo ELSE ZAdd(lo, ZOne)
              IN  IF ZMul(ZPow2(b), ZOne) = z THEN ZMul(Z(b), ZPow2(32))
                  ELSE LogStep(Z(b), lo, hi, 32)
Log2AccurateOK(z, r) ==
    IF Sgn(z) = 0 THEN r = ZZero
    ELSE LET e == Log2Fix(z) IN e = <<>> \/ r = e

(* exp2_accurate(n) is 2^(n / 2^32) to the nearest integer, with a relative *)
(* error of at most 2^-32 from its interpolation                           *)
Exp2AccurateOK(z, r) ==
    LET k == ZShift(z, -32)
        f == ZSub(z, ZShift(k, 32))
        m == Exp2F(ZShift(f, LogPrec - 32), LogPrec)         \* 2^f
        v == ZShift(m, ToInt(k))                             \* 2^(n / 2^32), times 2^LogPrec
        d == ZAbs(ZSub(v, ZShift(r, LogPrec)))
    IN  ZLe(d, ZAdd(ZShift(v, -32), ZAdd(ZPow2(LogPrec - 1), ZPow2(20))))

---------------------------------------------------------------------------
UApply(n, a, c) ==
    LET x == a[1][2]
        y == a[2][2]
        k == c[1][2]
    IN
    CASE n = "add" -> OkU(ZAdd(x, y))
      [] n = "add_u32" -> OkU(ZAdd(x, k))
      [] n = "sub" -> IF ZLt(x, y) THEN Panic ELSE OkU(ZSub(x, y))
      [] n = "sub_u32" -> IF ZLt(x, k) THEN Panic ELSE OkU(ZSub(x, k))
      [] n = "abs_diff" -> OkU(ZAbs(ZSub(x, y)))
      [] n = "abs_diff_u32" -> OkU(ZAbs(ZSub(x, k)))
      [] n = "mul" -> OkU(ZMul(x, y))
      [] n = "mul_u32" -> OkU(ZMul(x, k))
      [] n = "mul_pow2" -> OkU(ZMul(x, ZPow2(ToInt(k))))
      [] n = "div" -> IF Sgn(y) = 0 THEN Panic ELSE OkU(ZQuo(x, y))
      [] n = "div_u32" -> IF Sgn(k) = 0 THEN Panic ELSE OkU(ZQuo(x, k))
      [] n = "rem" -> IF Sgn(y) = 0 THEN Panic ELSE OkU(ZRem(x, y))
      [] n \in {"rem_u32", "rem_pow2"} -> IF Sgn(k) = 0 THEN Panic ELSE OkU(ZRem(x, k))
      [] n \in BigCmp -> CmpResult(n, ZCmp(x, y))
      [] n \in SmallCmpU -> CmpResult(n, ZCmp(x, k))
      [] n = "pow_u32" -> OkU(PowZ(x, k))
      [] n \in {"pow2", "exp2"} -> OkU(ZPow2(ToInt(k)))
      [] n = "sum" -> OkU(SumFrom(a, 1))
      [] n = "product" -> OkU(ProdFrom(a, 1))
      [] n = "shift_right" -> OkU(ZQuo(x, Bits32(ToInt(k))))
      [] n = "shift_left" -> OkU(ZMul(x, Bits32(ToInt(k))))
      [] n = "slice_right" -> IF ToInt(k) > LimbLen(x) THEN Panic ELSE OkU(ZRem(x, Bits32(ToInt(k))))
      [] n \in OfMachine -> IF Sgn(k) < 0 THEN Err ELSE OkU(k)
      [] n \in ToUnsigned \cup ToSigned -> ToMachine(n, x)
      [] n \in Printers -> Show(n, x)
      [] n = "max" -> OkU(ZMax(x, y))
      [] n = "min" -> OkU(ZMin(x, y))
      [] n \in {"zero", "default"} -> OkU(ZZero)
      [] n = "one" -> OkU(ZOne)
      [] n = "is_zero" -> OkB(Sgn(x) = 0)
      [] n = "is_one" -> OkB(x = ZOne)
      [] n = "len" -> OkN(Z(LimbLen(x)))
      [] n = "sqrt" -> OkU(ZSqrt(x))
      [] n = "log2" -> OkU(IF Sgn(x) = 0 THEN ZZero ELSE Z(ZBits(x) - 1))
      [] n = "gcd" -> OkU(ZGcd(x, y))
      [] n = "factorial" -> OkU(ZFact(ToInt(k)))
      [] n = "fibonacci" -> OkU(Fib(ToInt(k)))
      [] n = "is_prime" -> OkB(ZIsPrime(x))
      [] n \in {"of_i", "of_i_own"} -> IF Sgn(x) < 0 THEN Err ELSE OkU(x)
      [] n \in {"of_r", "of_r_own"} -> LET t == RTrunc(a[1]) IN IF Sgn(t) < 0 THEN Err ELSE OkU(t)
      [] n \in {"as_bool", "own_bool"} -> OkB(Sgn(x) # 0)

UAllowed(n, a, c, o) ==
    CASE n \in Parsers -> UParse(c[1][2], LAMBDA z : U(z), o)
      [] n = "sort" -> o[1] = "ok" /\ o[2][1] = "l" /\ IsSorted(a, o[2][2], LAMBDA x, y : ZCmp(x[2], y[2]))
      [] n = "prime_factorial" -> /\ o[1] = "ok" /\ o[2][1] = "l"
                                  /\ \A k \in 1..Len(o[2][2]) : o[2][2][k][1] = "u"
                                  /\ IsFactorisation(a[1][2], [k \in 1..Len(o[2][2]) |-> o[2][2][k][2]])
      [] n = "log2_accurate" -> o[1] = "ok" /\ o[2][1] = "u" /\ Log2AccurateOK(a[1][2], o[2][2])
      [] n = "exp2_accurate" -> o[1] = "ok" /\ o[2][1] = "u" /\ Exp2AccurateOK(a[1][2], o[2][2])
      [] OTHER -> o = UApply(n, a, c)

---------------------------------------------------------------------------
IApply(n, a, c) ==
    LET x == a[1][2]
        y == a[2][2]
        k == c[1][2]
    IN
    CASE n = "add" -> OkI(ZAdd(x, y))
      [] n = "add_i32" -> OkI(ZAdd(x, k))
      [] n = "sub" -> OkI(ZSub(x, y))
      [] n = "sub_i32" -> OkI(ZSub(x, k))
      [] n = "mul" -> OkI(ZMul(x, y))
      [] n = "mul_i32" -> OkI(ZMul(x, k))
      [] n = "mul_pow2" -> OkI(ZMul(x, ZPow2(ToInt(k))))
      [] n = "div" -> IF Sgn(y) = 0 THEN Panic ELSE OkI(ZQuo(x, y))
      [] n = "div_i32" -> IF Sgn(k) = 0 THEN Panic ELSE OkI(ZQuo(x, k))
      [] n = "rem" -> IF Sgn(y) = 0 THEN Panic ELSE OkI(ZRem(x, y))
      [] n = "rem_i32" -> IF Sgn(k) = 0 THEN Panic ELSE OkI(ZRem(x, k))
      [] n \in BigCmp -> CmpResult(n, ZCmp(x, y))
      [] n \in SmallCmpI -> CmpResult(n, ZCmp(x, k))
      [] n = "pow_u32" -> OkI(PowZ(x, k))
      [] n \in {"pow2", "exp2"} -> OkI(ZPow2(ToInt(k)))
      [] n = "neg" -> OkI(ZNeg(x))
      [] n = "abs" -> OkI(ZAbs(x))
      [] n = "shift_right" -> OkI(ZQuo(x, Bits32(ToInt(k))))
      [] n = "shift_left" -> OkI(ZMul(x, Bits32(ToInt(k))))
      [] n = "slice_right" -> IF ToInt(k) > LimbLen(x) THEN Panic ELSE OkI(ZRem(x, Bits32(ToInt(k))))
      [] n \in OfMachine -> OkI(k)
      [] n \in ToUnsigned \cup ToSigned -> ToMachine(n, x)
      [] n \in Printers -> Show(n, x)
      [] n = "max" -> OkI(ZMax(x, y))
      [] n = "min" -> OkI(ZMin(x, y))
      [] n \in {"zero", "default"} -> OkI(ZZero)
      [] n = "one" -> OkI(ZOne)
      [] n = "is_zero" -> OkB(Sgn(x) = 0)
      [] n = "is_one" -> OkB(x = ZOne)
      [] n = "is_neg" -> OkB(Sgn(x) < 0)
      [] n = "len" -> OkN(Z(LimbLen(x)))
      [] n = "sqrt" -> OkI(IF Sgn(x) < 0 THEN ZNeg(ZSqrt(ZNeg(x))) ELSE ZSqrt(x))
      [] n = "log2" -> OkI(IF Sgn(x) = 0 THEN ZZero ELSE Z(ZBits(x) - 1))
      [] n = "gcd" -> OkI(ZGcd(x, y))
      [] n = "gcd_i32" -> LET g == ZGcd(k, c[2][2])     \* 2^31 is no i32
                          IN  IF FitsSigned(g, 32) THEN OkN(g) ELSE Panic
      [] n = "factorial" -> OkI(ZFact(ToInt(k)))
      [] n = "fibonacci" -> OkI(Fib(ToInt(k)))
      [] n = "is_prime" -> OkB(ZIsPrime(ZAbs(x)))
      [] n = "from_ubi" -> OkI(IF Sgn(k) # 0 THEN ZNeg(x) ELSE x)
      [] n = "to_ubi" -> IF Sgn(x) < 0 THEN Err ELSE OkU(x)
      [] n \in {"of_u", "of_u_own"} -> OkI(x)
      [] n \in {"of_r", "of_r_own"} -> OkI(RTrunc(a[1]))
      [] n \in {"as_bool", "own_bool"} -> OkB(Sgn(x) # 0)

IAllowed(n, a, c, o) ==
    CASE n \in Parsers -> IParse(c[1][2], o)
      [] n = "sort" -> o[1] = "ok" /\ o[2][1] = "l" /\ IsSorted(a, o[2][2], LAMBDA x, y : ZCmp(x[2], y[2]))
      [] n = "prime_factorial" -> /\ o[1] = "ok" /\ o[2][1] = "l"
                                  /\ \A k \in 1..Len(o[2][2]) : o[2][2][k][1] = "i"
                                  /\ IsFactorisation(ZAbs(a[1][2]), [k \in 1..Len(o[2][2]) |-> o[2][2][k][2]])
      [] n = "log2_accurate" -> o[1] = "ok" /\ o[2][1] = "i" /\ Log2AccurateOK(ZAbs(a[1][2]), o[2][2])
      [] n = "rem_pow2" -> \* documented for powers of two only
            o = IF Sgn(c[1][2]) = 0 THEN Panic ELSE OkI(ZRem(a[1][2], c[1][2]))
      [] OTHER -> o = IApply(n, a, c)
=============================================================================
