------------------------------- MODULE HRatio -------------------------------
(***************************************************************************)
(* Ratio (family "r") and Complex (family "c"): exact rational arithmetic, *)
(* rounding, conversions, text, and IEEE-754 floats.                       *)
(***************************************************************************)
EXTENDS HInt

Half == <<"r", ZOne, ZTwo>>
RRound(x) == IF Sgn(x[2]) >= 0 THEN RFloor(RAdd(x, Half)) ELSE ZNeg(RFloor(RAdd(RNeg(x), Half)))
RFrac(x) == RSub(x, RInt(RTrunc(x)))

---------------------------------------------------------------------------
(* IEEE-754 floats as bit patterns z; w = width of the fraction field,     *)
(* emax = the exponent field of infinities and NaNs.                       *)
F32 == [w |-> 23, emax |-> 255, bias |-> 127, sign |-> ZPow2(31)]
F64 == [w |-> 52, emax |-> 2047, bias |-> 1023, sign |-> ZPow2(63)]

FlNeg(t, z) == ZLe(t.sign, z)
FlMag(t, z) == IF FlNeg(t, z) THEN ZSub(z, t.sign) ELSE z
FlExp(t, z) == ToInt(ZQuo(FlMag(t, z), ZPow2(t.w)))
FlFrac(t, z) == ZRem(z, ZPow2(t.w))
FlFinite(t, z) == FlExp(t, z) < t.emax
(* the value of a non-negative pattern; the pattern of infinity stands for *)
(* the first number the format lacks                                       *)
FlAbs(t, m) ==
    LET e == ToInt(ZQuo(m, ZPow2(t.w)))
        f == ZRem(m, ZPow2(t.w))
    IN  IF e = 0 THEN RMul(RInt(f), RPow2(1 - t.bias - t.w))
        ELSE RMul(RInt(ZAdd(f, ZPow2(t.w))), RPow2(e - t.bias - t.w))
FlValue(t, z) == LET v == FlAbs(t, FlMag(t, z)) IN IF FlNeg(t, z) THEN RNeg(v) ELSE v
FlMax(t) == FlAbs(t, ZSub(ZMul(Z(t.emax), ZPow2(t.w)), ZOne))

(* z is a pattern nearest to x *)
FlNearest(t, x, z) ==
    LET m == FlMag(t, z)
        ax == RAbs(x)
        d == RAbs(RSub(FlAbs(t, m), ax))
    IN  /\ FlFinite(t, z)
        /\ Sgn(m) # 0 => (FlNeg(t, z) <=> Sgn(x[2]) < 0)
        /\ Sgn(m) # 0 => RLe(d, RAbs(RSub(FlAbs(t, ZSub(m, ZOne)), ax)))
        /\ RLe(d, RAbs(RSub(FlAbs(t, ZAdd(m, ZOne)), ax)))
ToFloatOK(t, x, o) ==
    \/ /\ o[1] = "ok" /\ o[2][1] = "n"
       /\ FlNearest(t, x, o[2][2])
    \/ /\ o = Err
       /\ RLt(FlMax(t), RAbs(x))

(* significand and exponent of a float whatever its class: the value is    *)
(* (-1)^neg * 2^e * (1 + f/2^w)                                            *)
Inspect(t, z) ==
    IF ~FlFinite(t, z) THEN Err
    ELSE IF Sgn(FlMag(t, z)) = 0 THEN Ok(L(<<B(FALSE), N(ZNeg(ZPow2(31))), N(ZZero)>>))
    ELSE LET e == FlExp(t, z)
             f == FlFrac(t, z)
             b == ZBits(f)
         IN  IF e > 0 THEN Ok(L(<<B(FlNeg(t, z)), N(Z(e - t.bias)), N(f)>>))
             ELSE Ok(L(<<B(FlNeg(t, z)), N(Z(b - t.bias - t.w)), N(ZSub(ZMul(f, ZPow2(t.w + 1 - b)), ZPow2(t.w)))>>))

FloatType(n) == IF n \in {"of_f32", "of_ref_f32", "as_f32", "own_f32", "to_f32", "from_ieee_f32", "inspect_f32"} THEN F32 ELSE F64
OfFloat == {"of_f32", "of_f64", "of_ref_f32", "of_ref_f64", "from_ieee_f32", "from_ieee_f64"}
ToFloat == {"as_f32", "as_f64", "own_f32", "own_f64", "to_f32", "to_f64"}

(* integers from and to floats *)
IntOfFloat(n, c, wrap(_)) ==
    LET t == FloatType(n) IN
    IF ~FlFinite(t, c[1][2]) THEN Err ELSE wrap(RTrunc(FlValue(t, c[1][2])))

---------------------------------------------------------------------------
(* Text.  A numeral without point and exponent is an integer numeral.      *)
(* Otherwise:  [-] int [. {0-9_}] [e [-] int]  with int a decimal integer  *)
(* numeral (which has no redundant leading zeros), the e of either case.   *)
DecInt(s) == UNumeralOK(s) /\ ~(Len(s) >= 2 /\ RadixOf(s[2]) > 0)
LowerAll(s) == [k \in 1..Len(s) |-> Lower(s[k])]
RBody(s) == IF Len(s) >= 1 /\ s[1] = Minus THEN From(s, 2) ELSE s
HasPoint(s) == \E k \in 1..Len(s) : s[k] = Dot
HasE(s) == \E k \in 1..Len(s) : Lower(s[k]) = CharE
IsHexLike(s) == LET b == NoUnder(RBody(s)) IN Len(b) >= 2 /\ b[1] = Zero /\ RadixOf(b[2]) = 16

RECURSIVE FindE(_, _)
FindE(s, k) == IF k > Len(s) THEN k ELSE IF Lower(s[k]) = CharE THEN k ELSE FindE(s, k + 1)

(* <<integer part, fraction part, exponent part>> of a body without sign   *)
RMant(b) == SubSeq(b, 1, FindE(b, 1) - 1)
RExpText(b) == From(b, FindE(b, 1) + 1)
RExpAbs(x) == IF Len(x) >= 1 /\ x[1] = Minus THEN From(x, 2) ELSE x
RNumeralOK(s) ==
    LET b == RBody(s)
        m == RMant(b)
        k == Find(m, 1, Dot)
        hasE == FindE(b, 1) <= Len(b)
        x == RExpAbs(RExpText(b))
    IN  /\ DecInt(SubSeq(m, 1, k - 1))
        /\ \A j \in (k + 1)..Len(m) : IsDec(m[j]) \/ m[j] = Under
        /\ hasE => DecInt(x)
(* exponents beyond the i32 range are refused; the generator stays below   *)
RExponent(b) == IF FindE(b, 1) > Len(b) THEN ZZero
                ELSE LET x == RExpText(b)
                         v == UNumeralValue(RExpAbs(x))
                     IN  IF x[1] = Minus THEN ZNeg(v) ELSE v
RNumeralValue(s) ==
    LET b == RBody(s)
        m == RMant(b)
        k == Find(m, 1, Dot)
        v == DecOf(NoUnder(SubSeq(m, 1, k - 1)), NoUnder(From(m, k + 1)), RExponent(b))
    IN  IF s[1] = Minus THEN RNeg(v) ELSE v

RParse(s, o) ==
    IF ~HasPoint(s) /\ (~HasE(s) \/ IsHexLike(s))
    THEN LET b == RBody(s) IN UParse(b, LAMBDA z : RInt(IF s # b THEN ZNeg(z) ELSE z), o)
    ELSE IF RNumeralOK(s)
    THEN IF FitsSigned(RExponent(RBody(s)), 32) THEN o = Ok(RNumeralValue(s)) ELSE o = Err
    ELSE \* an exponent written in another radix is not documented: the
         \* natural reading or an error
         \/ o = Err
         \/ LET b == RBody(s)
                x == RExpAbs(RExpText(b))
                v == UNumeralValue(NoUnder(x))
                t == RMant(b)
                k == Find(t, 1, Dot)
            IN  /\ FindE(b, 1) <= Len(b)
                /\ UNumeralOK(x) \/ UNumeralLoose(x)
                /\ DecInt(SubSeq(t, 1, k - 1))
                /\ \A j \in (k + 1)..Len(t) : IsDec(t[j]) \/ t[j] = Under
                /\ LET w == DecOf(NoUnder(SubSeq(t, 1, k - 1)), NoUnder(From(t, k + 1)),
                                  IF RExpText(b)[1] = Minus THEN ZNeg(v) ELSE v)
                   IN  o = Ok(IF s[1] = Minus THEN RNeg(w) ELSE w)

RatioText(x) == IF x[3] = ZOne THEN IntText(x[2], 10, FALSE)
                ELSE IntText(x[2], 10, FALSE) \o <<Slash>> \o IntText(x[3], 10, FALSE)

(* Approximate output.  The number printed has x's sign, and its distance  *)
(* from x is less than one unit of the last position there was room for,   *)
(* at most eight significant digits when an exponent is used, and four when *)
(* the exponent is beyond +-9990.                                          *)
SignOK(x, v) == Sgn(v[2]) = 0 \/ Sgn(v[2]) = Sgn(x[2])
HasExp(s) == \E k \in 1..Len(s) : s[k] = CharE
MaxI2(a, b) == IF a >= b THEN a ELSE b
MinI2(a, b) == IF a <= b THEN a ELSE b
ExpTextLen(s) == LET b == OutBody(s) IN Len(b) - OutE(b) + 1      \* with the e
SignLen(s) == IF s[1] = Minus THEN 1 ELSE 0
IntPartLen(s) == LET m == OutMant(OutBody(s)) IN MantDot(m) - 1
AbsI(k) == IF k < 0 THEN -k ELSE k

ApproxOK(x, n, s) ==
    LET lim == MaxI2(n, 6)
        v == OutputValue(s)
        err == RAbs(RSub(v, x))
    IN  /\ OutputOK(s)
        /\ SignOK(x, v)
        /\ IF ~HasExp(s)
           THEN /\ Len(s) <= lim
                /\ RLt(err, RPow10(-MaxI2(0, lim - IntPartLen(s) - 1 - SignLen(s))))
           ELSE LET e == OutputExp(s)
                    lim2 == MaxI2(lim, ExpTextLen(s) + 3)
                    room == lim2 - ExpTextLen(s) - SignLen(s) - 1
                    digs == MaxI2(1, MinI2(room, 8))
                IN  /\ IntPartLen(s) = 1
                    /\ \/ /\ Len(s) <= lim2
                          /\ RLt(err, RPow10(e - digs + 1))
                       \/ /\ AbsI(e) > 9988
                          /\ RLt(err, RMul(RInt(Z(2)), RPow10(e - 3)))

SciOK(x, n, s, most) ==
    LET v == OutputValue(s)
        e == OutputExp(s)
        digs == MinI2(n, most)
    IN  /\ OutputOK(s)
        /\ HasExp(s)
        /\ SignOK(x, v)
        /\ IntPartLen(s) = 1
        /\ 1 + OutputFracLen(s) <= MaxI2(n, 1)
        /\ RIsZero(x) => RIsZero(v)
        /\ RLt(RAbs(RSub(v, x)), RMul(RPow10(e - digs + 1), RAdd(ROne, RPow2(-80))))

TextOK(o, P(_)) == o[1] = "ok" /\ o[2][1] = "s" /\ P(o[2][2])

---------------------------------------------------------------------------
(* shrink(limit): a nearby value with at most `limit` limbs, if the answer *)
(* says so                                                                 *)
ShrinkOK(x, limit, o) ==
    /\ o[1] = "ok" /\ o[2][1] = "l" /\ Len(o[2][2]) = 3
    /\ LET y == o[2][2][1]
           ok == o[2][2][2][2]
           k == o[2][2][3][2]
           long == MaxI2(LimbLen(x[2]), LimbLen(x[3]))
       IN  /\ y[1] = "r"
           /\ limit < 3 => ~ok /\ y = x /\ k = ZZero
           /\ limit >= 3 /\ long <= limit => ok /\ y = x /\ k = ZZero
           /\ limit >= 3 => (ok <=> LimbLen(y[2]) <= limit /\ LimbLen(y[3]) <= limit)
           /\ Sgn(y[2]) = Sgn(x[2])
           /\ RLe(RAbs(RSub(y, x)), RMul(RAbs(x), RPow2(-60)))

---------------------------------------------------------------------------
RBinary(op, x, y) ==
    CASE op = "add" -> Ok(RAdd(x, y))
      [] op = "sub" -> Ok(RSub(x, y))
      [] op = "mul" -> Ok(RMul(x, y))
      [] op = "div" -> IF RIsZero(y) THEN Panic ELSE Ok(RDiv(x, y))

RApply(n, a, c) ==
    LET x == a[1]
        y == a[2]
        k == c[1][2]
    IN
    CASE n \in {"add", "sub", "mul", "div"} -> RBinary(n, x, y)
      [] n = "add_bi" -> RBinary("add", x, RInt(y[2]))
      [] n = "sub_bi" -> RBinary("sub", x, RInt(y[2]))
      [] n = "mul_bi" -> RBinary("mul", x, RInt(y[2]))
      [] n = "div_bi" -> RBinary("div", x, RInt(y[2]))
      [] n = "add_i32" -> RBinary("add", x, RInt(k))
      [] n = "sub_i32" -> RBinary("sub", x, RInt(k))
      [] n = "mul_i32" -> RBinary("mul", x, RInt(k))
      [] n = "div_i32" -> RBinary("div", x, RInt(k))
      [] n = "pow_i32" -> IF Sgn(k) < 0 /\ RIsZero(x) THEN Panic
                          ELSE IF ZAbs(x[2]) = ZOne /\ x[3] = ZOne
                          THEN Ok(IF ZRem(ZAbs(k), ZTwo) = ZZero THEN ROne ELSE x)
                          ELSE IF RIsZero(x) THEN Ok(IF Sgn(k) = 0 THEN ROne ELSE RZero)
                          ELSE Ok(RPow(x, ToInt(k)))
      [] n = "neg" -> Ok(RNeg(x))
      [] n = "abs" -> Ok(RAbs(x))
      [] n = "reci" -> IF RIsZero(x) THEN Panic ELSE Ok(RDiv(ROne, x))
      [] n = "truncate" -> Ok(RInt(RTrunc(x)))
      [] n = "truncate_bi" -> OkI(RTrunc(x))
      [] n = "frac" -> Ok(RFrac(x))
      [] n = "truncate_and_frac" -> Ok(L(<<I(RTrunc(x)), RFrac(x)>>))
      [] n = "floor" -> Ok(RInt(RFloor(x)))
      [] n = "floor_bi" -> OkI(RFloor(x))
      [] n = "round" -> Ok(RInt(RRound(x)))
      [] n = "round_bi" -> OkI(RRound(x))
      [] n \in {"zero", "default"} -> Ok(RZero)
      [] n = "one" -> Ok(ROne)
      [] n = "is_zero" -> OkB(RIsZero(x))
      [] n = "is_one" -> OkB(x = ROne)
      [] n = "is_neg" -> OkB(Sgn(x[2]) < 0)
      [] n = "is_integer" -> OkB(x[3] = ZOne)
      [] n = "numer" -> OkI(x[2])
      [] n = "denom" -> OkI(x[3])
      [] n = "pair_r" -> Ok(L(<<RInt(x[3]), RInt(x[2])>>))
      [] n = "pair_bool" -> Ok(L(<<B(TRUE), B(Sgn(x[2]) # 0)>>))
      [] n \in {"pair", "pair_own"} -> Ok(L(<<I(x[3]), I(x[2])>>))
      [] n \in BigCmp -> CmpResult(n, RCmp(x, y))
      [] n \in SmallCmpI -> CmpResult(n, RCmp(x, RInt(k)))
      [] n = "lt_one" -> OkB(RLt(x, ROne))
      [] n = "gt_one" -> OkB(RLt(ROne, x))
      [] n = "max" -> Ok(IF RLe(x, y) THEN y ELSE x)
      [] n = "min" -> Ok(IF RLe(x, y) THEN x ELSE y)
      [] n \in {"from_bi", "from_ubi", "of_i", "of_i_own", "of_u", "of_u_own"} -> Ok(RInt(x[2]))
      [] n \in OfMachine -> Ok(RInt(k))
      [] n \in ToUnsigned \cup ToSigned -> ToMachine(n, RTrunc(x))
      [] n \in OfFloat -> IF FlFinite(FloatType(n), k) THEN Ok(FlValue(FloatType(n), k)) ELSE Err
      [] n \in {"inspect_f32", "inspect_f64"} -> Inspect(FloatType(n), k)
      [] n = "ratio_string" -> Ok(S(RatioText(x)))

RAllowed(n, a, c, o) ==
    CASE n = "from_dn" -> IF Sgn(a[1][2]) = 0 THEN o = Panic ELSE o = OkR(a[2][2], a[1][2])
      [] n = "try_from_dn_f64" ->
            IF ~(FlFinite(F64, c[1][2]) /\ FlFinite(F64, c[2][2])) THEN o = Err
            ELSE LET d == RTrunc(FlValue(F64, c[1][2]))
                 IN  IF Sgn(d) = 0 THEN o = Panic ELSE o = OkR(RTrunc(FlValue(F64, c[2][2])), d)
      [] n = "from_dn_i32" -> IF Sgn(c[1][2]) = 0 THEN o = Panic ELSE o = OkR(c[2][2], c[1][2])
      [] n = "try_from_pair" ->       \* two integer numerals, denominator first
            IF ~(UNumeralOK(RBody(c[1][2])) /\ UNumeralOK(RBody(c[2][2]))) THEN o = Err
            ELSE LET val(s) == IF s[1] = Minus THEN ZNeg(UNumeralValue(RBody(s))) ELSE UNumeralValue(s)
                 IN  IF Sgn(val(c[1][2])) = 0 THEN o \in {Panic, Err} ELSE o = OkR(val(c[2][2]), val(c[1][2]))
      [] n = "common_denom" ->        \* a = v1/v3, b = v2/v3, v3 > 0
            /\ o[1] = "ok" /\ o[2][1] = "l" /\ Len(o[2][2]) = 3
            /\ LET v == [j \in 1..3 |-> o[2][2][j][2]]
               IN  /\ Sgn(v[3]) > 0
                   /\ R(v[1], v[3]) = a[1]
                   /\ R(v[2], v[3]) = a[2]
                   /\ v[3] = ZQuo(ZMul(a[1][3], a[2][3]), ZGcd(a[1][3], a[2][3]))
      [] n = "sort" -> o[1] = "ok" /\ o[2][1] = "l" /\ IsSorted(a, o[2][2], LAMBDA x, y : RCmp(x, y))
      [] n \in ToFloat -> ToFloatOK(FloatType(n), a[1], o)
      [] n \in Parsers -> RParse(c[1][2], o)
      [] n = "approx" -> TextOK(o, LAMBDA s : ApproxOK(a[1], ToInt(c[1][2]), s))
      [] n \in {"to_string", "display"} -> TextOK(o, LAMBDA s : ApproxOK(a[1], 12, s))
      [] n = "sci" -> TextOK(o, LAMBDA s : SciOK(a[1], ToInt(c[1][2]), s, 17))
      [] n = "shrink" -> ShrinkOK(a[1], ToInt(c[1][2]), o)
      [] OTHER -> o = RApply(n, a, c)

---------------------------------------------------------------------------
CAdd(x, y) == <<"c", RAdd(x[2], y[2]), RAdd(x[3], y[3])>>
CAllowed(n, a, c, o) ==
    CASE n = "make" -> o = Ok(<<"c", a[1], a[2]>>)
      [] n = "make_i32" -> o = Ok(<<"c", RInt(c[1][2]), RInt(c[2][2])>>)
      [] n = "try_make_str" ->
            \/ /\ o[1] = "ok" /\ o[2][1] = "c"
               /\ RParse(c[1][2], Ok(o[2][2]))
               /\ RParse(c[2][2], Ok(o[2][3]))
            \/ o = Err /\ (RParse(c[1][2], Err) \/ RParse(c[2][2], Err))
      [] n = "real" -> o = Ok(a[1][2])
      [] n = "imaginary" -> o = Ok(a[1][3])
      [] n = "add" -> o = Ok(CAdd(a[1], a[2]))
      [] n = "add_i32" -> o = Ok(CAdd(a[1], <<"c", RInt(c[1][2]), RZero>>))
---------------------------------------------------------------------------
(* Integers from and to floats, and in scientific notation.                *)
IntFloat == {"of_f32", "of_f64", "of_ref_f32", "of_ref_f64", "as_f32", "as_f64", "own_f32", "own_f64", "sci", "fmt_e"}
IntFloatAllowed(wrap(_), n, a, c, o) ==
    CASE n \in OfFloat -> o = IntOfFloat(n, c, wrap)
      [] n \in ToFloat -> ToFloatOK(FloatType(n), RInt(a[1][2]), o)
      [] n = "sci" -> TextOK(o, LAMBDA s : SciOK(RInt(a[1][2]), ToInt(c[1][2]), s, 10))
      [] n = "fmt_e" -> TextOK(o, LAMBDA s : SciOK(RInt(a[1][2]), 5, s, 10))
UOfZ(z) == IF Sgn(z) < 0 THEN Err ELSE OkU(z)
=============================================================================
