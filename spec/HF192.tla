------------------------------- MODULE HF192 -------------------------------
(***************************************************************************)
(* F192 (family "f"): floating-point numbers m * 2^e with a 128-bit        *)
(* mantissa.  Abstract values are <<"f", m, e>>: |m| has 128 binary        *)
(* digits, or m = e = 0.  "Unit" is a unit in the last place, 2^e.         *)
(***************************************************************************)
EXTENDS HRatio

FZero == <<"f", ZZero, ZZero>>
IsF(o) == o[1] = "ok" /\ o[2][1] = "f"
FE(x) == ToInt(x[3])
Small(z, bits) == ZBits(z) <= bits
FSgn(x) == Sgn(x[2])
FExpMax == ZSub(ZPow2(64), FBias)       \* the exponents are below this ...
FExpMin == ZNeg(FBias)                  \* ... and not below this

(* m * 2^e, m with 128 digits, as an F192; digits and exponent both 0 mean *)
(* zero                                                                    *)
FMk(m, e) == IF Sgn(m) = 0 \/ (m = FHalf /\ e = FExpMin) THEN FZero ELSE <<"f", m, e>>
(* the number m * 2^e exactly, m with at most 128 significant digits; e a Z *)
FDyadic(m, e) ==
    IF Sgn(m) = 0 THEN FZero
    ELSE LET k == 128 - ZBits(m) IN <<"f", ZShift(m, k), ZSub(e, Z(k))>>
FOfZ(z) == FDyadic(z, ZZero)

(* Comparison: zero has m = 0. *)
FCmp(x, y) ==
    IF FSgn(x) # FSgn(y) THEN (IF FSgn(x) < FSgn(y) THEN -1 ELSE 1)
    ELSE IF x[3] = y[3] THEN ZCmp(x[2], y[2])
    ELSE FSgn(x) * ZCmp(x[3], y[3])

---------------------------------------------------------------------------
(* The mantissa mo is within h half units of P/Q * 2^-d, that is           *)
(*      | mo * 2^d  -  P/Q |  <=  (h/2) * 2^d                              *)
Near(mo, d, P, Q, h) ==
    IF d >= 0 THEN ZLe(ZMul(Z(2), ZAbs(ZSub(ZMul(ZShift(mo, d), Q), P))), ZMul(Z(h), ZShift(Q, d)))
    ELSE ZLe(ZMul(Z(2), ZAbs(ZSub(ZMul(mo, Q), ZShift(P, -d)))), ZMul(Z(h), Q))
(* o is within h half units of P/Q * 2^e, e a Z *)
FNear(o, P, Q, e, h) ==
    IF FSgn(o) = 0 THEN Sgn(P) = 0
    ELSE LET d == ZSub(o[3], e)
         IN  Small(d, 17) /\ Near(o[2], ToInt(d), P, Q, h)

(* p/q of a value with a moderate exponent *)
FModerate(x) == Small(x[3], 15)
FP(x) == IF FE(x) >= 0 THEN ZShift(x[2], FE(x)) ELSE x[2]
FQ(x) == IF FE(x) >= 0 THEN ZOne ELSE ZPow2(-FE(x))
FR(x) == R(FP(x), FQ(x))
FNegate(x) == IF FSgn(x) = 0 THEN x ELSE <<"f", ZNeg(x[2]), x[3]>>

(* Sums: less than one unit from the exact one; half a unit when the       *)
(* operands have opposite signs.                                           *)
FSumOK(x, y, o) ==
    IF FSgn(x) = 0 THEN o = Ok(y)
    ELSE IF FSgn(y) = 0 THEN o = Ok(x)
    ELSE LET d == ZSub(x[3], y[3])
             h == IF FSgn(x) = FSgn(y) THEN 2 ELSE 1
         IN  IF ~Small(d, 13) THEN o = Ok(IF Sgn(d) > 0 THEN x ELSE y)
             ELSE LET em == IF Sgn(d) >= 0 THEN y[3] ELSE x[3]
                      s == IF Sgn(d) >= 0 THEN ZAdd(ZShift(x[2], ToInt(d)), y[2])
                           ELSE ZAdd(x[2], ZShift(y[2], -ToInt(d)))
                      eo == ZAdd(em, Z(ZBits(ZAbs(s)) - 128))      \* the exponent of the sum
                  IN  IF Sgn(s) = 0 THEN o = Ok(FZero)
                      ELSE \/ IsF(o) /\ FNear(o[2], s, ZOne, em, h)
                           \/ o = Ok(FZero) /\ ZLe(eo, FExpMin)                \* underflow
                           \/ o = Panic /\ ZLe(ZSub(FExpMax, ZOne), eo)        \* overflow

FMulOK(x, y, o) ==
    LET e == ZAdd(x[3], y[3]) IN
    IF FSgn(x) = 0 \/ FSgn(y) = 0 THEN o = Ok(FZero)
    ELSE IF Sgn(ZAdd(e, FBias)) < 0 THEN o = Ok(FZero)          \* underflow
    ELSE IF ZLe(FExpMax, ZAdd(e, Z(127))) THEN o = Panic        \* overflow
    ELSE IF ZLe(ZPow2(64), ZAdd(e, ZMul(Z(2), FBias))) THEN TRUE \* "either panic or an arbitrary result"
    ELSE \/ IsF(o) /\ FNear(o[2], ZMul(x[2], y[2]), ZOne, e, 8)
         \/ o = Panic /\ ZLe(FExpMax, ZAdd(e, Z(130)))
FDivOK(x, y, o) ==
    IF FSgn(y) = 0 THEN o = Panic
    ELSE IF FSgn(x) = 0 THEN o = Ok(FZero)
    ELSE LET e == ZSub(x[3], y[3])
             s == IF Sgn(y[2]) > 0 THEN x[2] ELSE ZNeg(x[2])
         IN  \/ IsF(o) /\ FNear(o[2], s, ZAbs(y[2]), e, 20)
             \/ o = Ok(FZero) /\ ZLe(ZSub(e, Z(128)), FExpMin)      \* underflow
             \/ o = Panic /\ ZLe(FExpMax, ZSub(e, Z(126)))          \* overflow

(* stored exponents outside 0..2^64-1: too large panics, too small is zero *)
FScale(x, k) ==
    LET e == ZAdd(x[3], k) IN
    IF FSgn(x) = 0 THEN Ok(FZero)
    ELSE IF ZLe(FExpMax, e) THEN Panic
    ELSE IF ZLt(e, FExpMin) THEN Ok(FZero)
    ELSE Ok(FMk(x[2], e))
FStep(x) ==
    IF FSgn(x) = 0 THEN Ok(<<"f", ZAdd(FHalf, ZOne), FExpMin>>)
    ELSE LET m == ZAdd(ZAbs(x[2]), ZOne)
             s == Z(FSgn(x))
         IN  IF ZBits(m) <= 128 THEN Ok(<<"f", ZMul(s, m), x[3]>>)
             ELSE FScale(<<"f", ZMul(s, FHalf), x[3]>>, ZOne)

---------------------------------------------------------------------------
(* Rounding to integers: exact. *)
FIsInt(x) == IF FSgn(x) = 0 \/ Sgn(x[3]) >= 0 THEN TRUE
             ELSE IF ~Small(x[3], 7) THEN FALSE
             ELSE Sgn(ZRem(x[2], ZPow2(-FE(x)))) = 0
FHuge(x) == ZLe(ZPow2(62), x[3])        \* "pointless if the number is very big"
FTiny(x) == ZLt(x[3], Z(-200))          \* (when it is not zero)
(* f: the rounding function on rationals; numbers below 2^-72 round as     *)
(* +-2^-72 does                                                            *)
FRoundBy(x, f(_)) ==
    IF FSgn(x) = 0 \/ Sgn(x[3]) >= 0 THEN x
    ELSE IF FTiny(x) THEN FOfZ(f(<<"r", Z(FSgn(x)), ZPow2(72)>>))
    ELSE FOfZ(f(FR(x)))
RCeil(r) == ZNeg(RFloor(RNeg(r)))
FFrac(x) ==
    IF FSgn(x) = 0 \/ Sgn(x[3]) >= 0 THEN FZero
    ELSE IF ~Small(x[3], 7) THEN x
    ELSE FDyadic(ZRem(x[2], ZPow2(-FE(x))), x[3])

---------------------------------------------------------------------------
(* Conversions *)
FTrunc(x) == IF FSgn(x) = 0 \/ ZLt(x[3], Z(-128)) THEN ZZero
             ELSE ZShift(x[2], FE(x))
FToMachine(n, x, o) ==
    IF FSgn(x) # 0 /\ Sgn(x[3]) > 0 THEN o = Err
    ELSE \/ o = ToMachine(n, FTrunc(x))
         \/ o = Err /\ n \in ToUnsigned /\ FSgn(x) < 0           \* -1 < x < 0

FOfFloat(t, z) == IF ~FlFinite(t, z) THEN Err
                  ELSE LET v == FlValue(t, z)
                       IN  Ok(FDyadic(v[2], Z(-(ZBits(v[3]) - 1))))
(* the nearest pattern, infinity standing for the first number the format  *)
(* lacks                                                                   *)
FToFloatOK(t, x, o) ==
    /\ o[1] = "ok" /\ o[2][1] = "n"
    /\ IF ~FModerate(x)
       THEN LET m == FlMag(t, o[2][2])
            IN  IF Sgn(x[3]) < 0 THEN Sgn(m) = 0
                ELSE m = ZMul(Z(t.emax), ZPow2(t.w)) /\ (FlNeg(t, o[2][2]) <=> FSgn(x) < 0)
       ELSE
       LET z == o[2][2]
           m == FlMag(t, z)
           inf == ZMul(Z(t.emax), ZPow2(t.w))
           ax == RAbs(FR(x))
           d == RAbs(RSub(FlAbs(t, m), ax))
       IN  /\ ZLe(m, inf)
           /\ Sgn(m) # 0 => (FlNeg(t, z) <=> FSgn(x) < 0)
           /\ IF m = inf /\ RLt(FlAbs(t, inf), ax) THEN TRUE
              ELSE /\ Sgn(m) # 0 => RLe(d, RAbs(RSub(FlAbs(t, ZSub(m, ZOne)), ax)))
                   /\ m # inf => RLe(d, RAbs(RSub(FlAbs(t, ZAdd(m, ZOne)), ax)))

---------------------------------------------------------------------------
(* Exponents too far out for exact rationals: numbers are compared through *)
(* their logarithms, in fixed point with FarP fractional bits.  A rational *)
(* power of ten 10^e is off by 8 |e| units at most.                        *)
FarP == 320
FarLn(m, e) == ZAdd(LnR(m, ZOne, FarP), ZMul(e, LnR(ZTen, ZOne, FarP)))          \* ln (m * 10^e)
FarLnF(x) == ZAdd(LnR(ZAbs(x[2]), ZOne, FarP), ZMul(x[3], Ln2F(FarP)))           \* ln |x|
(* beyond this the exponents of intermediate results may overflow          *)
FarMax == ZPow2(61)

(* Text.  [-] 0x digits | [-] int [. {0-9_}] [e [+-] digits], int being 0  *)
(* or [1-9] {0-9_}.                                                        *)
FPrefixed(b) == Len(b) >= 2 /\ b[1] = Zero /\ RadixOf(b[2]) > 0
FPrefixedOK(b) == LET d == NoUnder(From(b, 3)) IN d # <<>> /\ AllIn(d, RadixOf(b[2]))
FIntOK(s) == \/ s = <<Zero>>
             \/ /\ Len(s) >= 1 /\ s[1] \in 49..57
                /\ \A k \in 2..Len(s) : IsDec(s[k]) \/ s[k] = Under
FExpOf(x) == IF Len(x) >= 1 /\ x[1] \in {Minus, Plus} THEN From(x, 2) ELSE x
FDecimalOK(b) ==
    LET m == RMant(b)
        k == Find(m, 1, Dot)
        hasE == FindE(b, 1) <= Len(b)
    IN  /\ FIntOK(SubSeq(m, 1, k - 1))
        /\ \A j \in (k + 1)..Len(m) : IsDec(m[j]) \/ m[j] = Under
        /\ hasE => NonEmptyDec(FExpOf(RExpText(b)))
FExpVal(b) == IF FindE(b, 1) > Len(b) THEN ZZero
              ELSE LET x == RExpText(b)
                       v == ZOfDigits(Digits(FExpOf(x)), 10)
                   IN  IF x[1] = Minus THEN ZNeg(v) ELSE v
FSignedBy(s, z) == IF Len(s) >= 1 /\ s[1] = Minus THEN ZNeg(z) ELSE z
FParseOK(s, o) ==
    LET b == RBody(s) IN
    IF FPrefixed(b)
    THEN IF ~FPrefixedOK(b) THEN o = Err
         ELSE LET z == FSignedBy(s, UNumeralValue(b))
              IN  IF ZBits(z) <= 128 THEN o = Ok(FOfZ(z))
                  ELSE IsF(o) /\ FNear(o[2], z, ZOne, ZZero, 8 + Len(b))
    ELSE IF ~FDecimalOK(b) \/ ~FitsSigned(FExpVal(b), 64) THEN o = Err
    ELSE LET m == RMant(b)
             k == Find(m, 1, Dot)
             ip == NoUnder(SubSeq(m, 1, k - 1))
             fp == IF k > Len(m) THEN <<>> ELSE NoUnder(From(m, k + 1))
             z == FSignedBy(s, ZOfDigits(Digits(ip \o fp), 10))
             e == FExpVal(b)
         IN  IF Sgn(z) = 0 THEN o = Ok(FZero)
             ELSE IF fp = <<>> /\ Sgn(e) = 0 /\ Len(ip) <= 38 THEN o = Ok(FOfZ(z))
             ELSE IF ~Small(e, 14)
             THEN LET v == FarLn(ZAbs(z), ZSub(e, Z(Len(fp))))
                      top == ZFloor(v, Ln2F(FarP))                      \* 2^top <= |value|
                      slack == Z(1000 + 4 * Len(b))
                      tol == ZShift(ZAdd(ZAbs(e), Z(64 + Len(b))), FarP - 124)
                  IN  IF ZLt(FarMax, top) THEN TRUE
                      ELSE IF ZLt(ZAdd(top, slack), FExpMin) THEN o = Ok(FZero)
                      ELSE \/ ZLt(ZSub(top, slack), FExpMin) /\ o = Ok(FZero)
                           \/ IsF(o) /\ FSgn(o[2]) = Sgn(z) /\ ZLe(ZAbs(ZSub(FarLnF(o[2]), v)), tol)
             ELSE LET t == ToInt(e) - Len(fp)
                      tol == 64 + 2 * (AbsI(ToInt(e)) + Len(ip) + Len(fp))
                  IN  IsF(o) /\ (IF t >= 0 THEN FNear(o[2], ZMul(z, ZPow(ZTen, t)), ZOne, ZZero, tol)
                                 ELSE FNear(o[2], z, ZPow(ZTen, -t), ZZero, tol))

OutputMant(s) == OutMant(OutBody(s))
(* digits from the first one that is not 0 *)
RECURSIVE Significant(_)
Significant(d) == IF d = <<>> THEN 0 ELSE IF d[1] = Zero THEN Significant(Tail(d)) ELSE Len(d)
OutputDigits(s) == Significant(SelectSeq(OutputMant(s), IsDec))
(* Output: 19 significant digits, or 20 decimals of a number below 1       *)
(* written without exponent.                                               *)
FarApproxOK(x, s) ==
    LET b == OutBody(s)
        m == OutMant(b)
        q == OutExp(b)
        qb == IF Len(q) >= 1 /\ q[1] = Minus THEN From(q, 2) ELSE q
    IN  /\ (Len(s) >= 1 /\ s[1] = Minus) <=> FSgn(x) < 0
        /\ OutE(b) <= Len(b) /\ MantOK(m) /\ MantDot(m) = 2 /\ m[1] # Zero
        /\ NonEmptyDec(qb) /\ qb[1] # Zero
        /\ Len(m) > 1 => m[Len(m)] # Zero
        /\ LET d == SelectSeq(m, IsDec)
               z == ZOfDigits(Digits(d), 10)
               e == ZOfDigits(Digits(qb), 10)
               v == FarLn(z, ZSub(IF q[1] = Minus THEN ZNeg(e) ELSE e, Z(Len(d) - 1)))
               tol == FxOf(ZPow(ZTen, Len(d) - 1), ZMul(z, ZPow(ZTen, 18)), FarP)      \* 10^-18 of the leading digit's unit
           IN  /\ Len(d) <= 19
               /\ ZLt(ZAbs(ZSub(v, FarLnF(x))), ZAdd(tol, ZShift(tol, -50)))
FApproxOK(x, s) ==
    IF FSgn(x) = 0 THEN s = <<Zero>>
    ELSE IF ~FModerate(x) THEN ~ZLt(ZAbs(x[3]), FarMax) \/ FarApproxOK(x, s)
    ELSE /\ OutputOK(s)
         /\ LET v == OutputValue(s)
                r == FR(x)
                lead == OutputUlp(s) + OutputDigits(s) - 1          \* exponent of the leading digit
                unit == IF HasExp(s) \/ lead >= 0 THEN lead - 18
                        ELSE MaxI2(lead - 18, -20)
            IN  /\ Sgn(v[2]) = FSgn(x)
                /\ HasExp(s) => IntPartLen(s) = 1
                /\ OutputDigits(s) <= 19
                /\ OutputFracLen(s) > 0 => OutputMant(s)[Len(OutputMant(s))] # Zero  \* no trailing zeros
                /\ RLt(RAbs(RSub(v, r)), RMul(RPow10(unit), RAdd(ROne, RPow2(-60))))

---------------------------------------------------------------------------
(* The 13-character code: base-62 digits 0-9A-Za-z, most significant first *)
(* and leading zeros dropped.  The first two and a half digits hold the    *)
(* exponent and the sign, the rest the mantissa.                           *)
CBase == ZMul(ZPow(Z(62), 10), Z(31))
CDigit(b) == IF b >= 48 /\ b <= 57 THEN b - 48
             ELSE IF b >= 65 /\ b <= 90 THEN b - 55
             ELSE IF b >= 97 /\ b <= 122 THEN b - 61
             ELSE 99
CZero == <<122, 121, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48>>
CodeOK(s) == Len(s) \in 1..13 /\ \A k \in 1..Len(s) : CDigit(s[k]) < 62
CPad(s) == [k \in 1..13 |-> IF k <= 13 - Len(s) THEN 0 ELSE CDigit(s[k - (13 - Len(s))])]
(* <<mantissa, exponent>> *)
CodeValue(s) ==
    LET d == CPad(s)
        e == d[1] * 124 + d[2] * 2 + d[3] \div 31
        k == (e + 2) \div 4
        m == ZAdd(CBase, ZAdd(ZMul(Z(31), ZOfDigits([j \in 1..10 |-> d[j + 3]], 62)), Z(d[3] % 31)))
    IN  <<IF e % 2 = 1 THEN ZNeg(m) ELSE m, (IF e % 4 >= 2 THEN k ELSE -k) - 64>>
FromCode(s) == IF s = CZero THEN Ok(FZero)
               ELSE IF ~CodeOK(s) THEN Err
               ELSE LET v == CodeValue(s) IN Ok(FDyadic(v[1], Z(v[2])))
(* the exponent of the code of x: |x| rounded to a mantissa in CBase .. 2 CBase *)
CodeExp(x) ==
    LET hi == ZQuo(ZAbs(x[2]), ZPow2(57))           \* 71 digits
        s == IF ZLe(ZMul(CBase, Z(64)), hi) THEN 1 ELSE 0
        r == ZQuo(ZAdd(ZQuo(hi, ZPow2(4 + s)), ZOne), Z(2))
    IN  ZAdd(x[3], Z(57 + s + 5 + 64 + (IF r = ZMul(CBase, Z(2)) THEN 1 ELSE 0)))
IntoCodeOK(x, o) ==
    IF FSgn(x) = 0 THEN o = Ok(S(CZero))
    ELSE LET ce == CodeExp(x) IN
         IF ZLt(ce, Z(-1921)) THEN o = Ok(S(CZero))
         ELSE IF ZLt(Z(1922), ce) THEN o = Err \/ (o = Panic /\ ZLt(ZPow2(30), ce))
         ELSE /\ o[1] = "ok" /\ o[2][1] = "s"
              /\ LET s == o[2][2] IN
                 /\ CodeOK(s)
                 /\ Len(s) > 1 => s[1] # Zero
                 /\ LET v == CodeValue(s)
                        d == ZSub(Z(v[2]), x[3])
                    IN  /\ Sgn(v[1]) = FSgn(x)
                        /\ Small(d, 12) /\ Near(v[1], ToInt(d), x[2], ZOne, 1)

---------------------------------------------------------------------------
(* Constants and elementary functions, in fixed point with 240 fractional  *)
(* digits.                                                                 *)
FX == 240
FxOfF(x) == IF ZLt(x[3], Z(-2 * FX)) THEN ZZero ELSE ZShift(x[2], FE(x) + FX)
Ulps(k) == ZPow2(FX + k)                \* 2^k
(* o is within tol of v, both in fixed point *)
FClose(o, v, tol) ==
    /\ IsF(o)
    /\ FSgn(o[2]) # 0 => ZLt(o[2][3], Z(5000))
    /\ ZLe(ZAbs(ZSub(FxOfF(o[2]), v)), tol)
(* nearest F192 to a constant *)
FNearest(o, v) == IsF(o) /\ FSgn(o[2]) # 0 /\ FModerate(o[2])
                  /\ ZLe(ZAbs(ZSub(FxOfF(o[2]), v)), ZAdd(ZShift(ZOne, FE(o[2]) + FX - 1), ZPow2(20)))

ConstVal(s) ==
    CASE s = "PI" -> PiF(FX) [] s = "PI_OVER_2" -> ZShift(PiF(FX), -1)
      [] s = "PI_OVER_3" -> ZQuo(PiF(FX), Z(3)) [] s = "PI_OVER_4" -> ZShift(PiF(FX), -2)
      [] s = "PI_OVER_6" -> ZQuo(PiF(FX), Z(6)) [] s = "E" -> ExpF(FxOne(FX), FX)
      [] s = "SQRT_2" -> FxSqrt(FxInt(Z(2), FX), FX) [] s = "SQRT_3" -> FxSqrt(FxInt(Z(3), FX), FX)
      [] s = "SQRT_10" -> FxSqrt(FxInt(Z(10), FX), FX) [] s = "ONE_OVER_SQRT_2" -> ZShift(FxSqrt(FxInt(Z(2), FX), FX), -1)
      [] s = "LN_2" -> Ln2F(FX) [] s = "LN_3" -> LnR(Z(3), ZOne, FX) [] s = "LN_10" -> LnR(ZTen, ZOne, FX)
FConstOK(s, o) ==
    CASE s = "ZERO" -> o = Ok(FZero)
      [] s = "ONE" -> o = Ok(FOfZ(ZOne))
      [] s = "MAX" -> o = Ok(<<"f", ZSub(ZPow2(128), ZOne), ZSub(FExpMax, ZOne)>>)
      [] s = "MIN" -> o = Ok(<<"f", ZSub(ZOne, ZPow2(128)), ZSub(FExpMax, ZOne)>>)
      [] s = "MIN_POSITIVE" -> o = Ok(<<"f", ZAdd(FHalf, ZOne), FExpMin>>)
      [] OTHER -> FNearest(o, ConstVal(s))

(* sqrt within 4 units; 0 of numbers that are not positive *)
FSqrtOK(x, o) ==
    IF FSgn(x) <= 0 THEN o = Ok(FZero)
    ELSE /\ IsF(o) /\ FSgn(o[2]) > 0
         /\ LET d == ZSub(ZMul(ZTwo, o[2][3]), x[3])
                lo == ZSub(o[2][2], Z(4))
                hi == ZAdd(o[2][2], Z(4))
            IN  /\ Small(d, 10)
                /\ IF Sgn(d) >= 0
                   THEN ZLe(ZShift(ZMul(lo, lo), ToInt(d)), x[2]) /\ ZLe(x[2], ZShift(ZMul(hi, hi), ToInt(d)))
                   ELSE ZLe(ZMul(lo, lo), ZShift(x[2], -ToInt(d))) /\ ZLe(ZShift(x[2], -ToInt(d)), ZMul(hi, hi))

(* log2 x = e + log2 m *)
FLn(x) == ZAdd(LnR(x[2], ZOne, FX), ZMul(x[3], Ln2F(FX)))
FLog2(x) == ZAdd(ZShift(x[3], FX), FxDiv(LnR(x[2], ZOne, FX), Ln2F(FX), FX))
LogTol(v) == ZAdd(Ulps(-116), ZShift(ZAbs(v), -122))

(* 2^f for 0 <= f < 1 from fourteen terms of the series: what is left out  *)
(* is below 1.1 (f ln 2)^15 / 15!                                          *)
RECURSIVE FxPow(_, _)
FxPow(x, n) == IF n = 0 THEN FxOne(FX)
               ELSE LET h == FxPow(x, n \div 2) h2 == FxMul(h, h, FX) IN IF n % 2 = 0 THEN h2 ELSE FxMul(h2, x, FX)
Exp2Tol(f) == ZAdd(ZQuo(ZMul(FxPow(FxMul(f, Ln2F(FX), FX), 15), Z(11)), ZMul(ZTen, ZFact(15))), Ulps(-115))
(* o is within a relative tol of v * 2^k, 1 <= v <= 2; k a Z *)
FRelClose(o, v, k, tol) ==
    /\ IsF(o) /\ FSgn(o[2]) > 0
    /\ LET d == ZSub(ZAdd(o[2][3], Z(FX)), k)
       IN  Small(d, 12) /\ ZLe(ZAbs(ZSub(ZShift(o[2][2], ToInt(d)), v)), FxMul(tol, v, FX))
(* 2^(t / 2^FX) *)
Exp2OK(t, o, tol(_)) ==
    LET k == ZFloor(t, FxOne(FX))
        f == ZSub(t, ZMul(k, FxOne(FX)))
        least == ZAdd(FExpMin, Z(127))                  \* powers of two below this are not represented
    IN  IF ZLt(ZAdd(k, ZOne), least) THEN o = Ok(FZero)
        ELSE IF ZLe(ZPow2(63), k) THEN TRUE             \* "too big exp"
        ELSE \/ ZLe(k, least) /\ o = Ok(FZero)
             \/ FRelClose(o, Exp2F(f, FX), k, tol(f))
FPow2OK(x, o) ==
    IF FSgn(x) = 0 THEN o = Ok(FOfZ(ZOne))
    ELSE IF Sgn(x[3]) > 0 THEN o = (IF FSgn(x) < 0 THEN Ok(FZero) ELSE Panic)   \* |x| >= 2^127
    ELSE LET t == FxOfF(x)      \* a negative number is not rounded to 0: its floor is -1
         IN  Exp2OK(IF Sgn(t) = 0 /\ FSgn(x) < 0 THEN Z(-1) ELSE t, o, Exp2Tol)
FPowOK(x, y, o) ==
    IF FSgn(x) <= 0 THEN o = Panic
    ELSE LET l == FLog2(x)
             t == IF FSgn(y) = 0 \/ ZLt(y[3], Z(-4 * FX)) THEN ZZero ELSE ZShift(ZMul(y[2], l), FE(y))
         IN  Exp2OK(t, o, LAMBDA f : ZAdd(Exp2Tol(FxOne(FX)), ZAdd(ZShift(ZAbs(t), -110), IF FSgn(y) = 0 THEN ZZero ELSE ZShift(ZAbs(y[2]), FE(y) + FX - 108))))

(* Integer powers: every product loses less than four units, so the power  *)
(* loses less than 8 (|n| + 2) and its reciprocal ten more; powers of two  *)
(* are exact.                                                              *)
FPowiOK(x, n, o) ==
    IF Sgn(n) = 0 THEN o = Ok(FOfZ(ZOne))
    ELSE IF FSgn(x) = 0 THEN (IF Sgn(n) > 0 THEN o = Ok(FZero) ELSE o = Panic)
    ELSE IF ZAbs(x[2]) = FHalf
    THEN LET odd == ZRem(ZAbs(n), ZTwo) = ZOne
             e == ZMul(ZAdd(x[3], Z(127)), n)
         IN  ~Small(e, 40) \/ o = Ok(FDyadic(IF odd THEN Z(FSgn(x)) ELSE ZOne, e))
    ELSE IF ~Small(n, 12) \/ ~Small(x[3], 16) THEN TRUE          \* not specified
    ELSE LET k == AbsI(ToInt(n))
             p == ZPow(x[2], k)
             h == 16 * (k + 2) + 20
         IN  IsF(o) /\ (IF Sgn(n) > 0 THEN FNear(o[2], p, ZOne, ZMul(x[3], n), h)
                        ELSE FNear(o[2], Z(Sgn(p)), ZAbs(p), ZMul(x[3], n), h))

(* sin and cos: within 2^-71, plus the error of the reduction (2^-120 of   *)
(* the argument); better for small arguments                               *)
TrigTol(x) == ZAdd(Ulps(-71), ZShift(ZAbs(FxOfF(x)), -119))
SinTol(x) == IF ZLt(x[3], Z(-128)) THEN ZAdd(ZQuo(FxPow(ZAbs(FxOfF(x)), 21), ZFact(21)), ZAdd(ZShift(ZAbs(FxOfF(x)), -119), ZPow2(8)))
             ELSE TrigTol(x)
FSin(x) == IF FSgn(x) = 0 \/ ZLt(x[3], Z(-2 * FX)) THEN ZZero ELSE SinR(FP(x), FQ(x), FX)
FCos(x) == IF FSgn(x) = 0 \/ ZLt(x[3], Z(-2 * FX)) THEN FxOne(FX) ELSE CosR(FP(x), FQ(x), FX)
(* o = sin / cos, each within tol *)
FTanOK(x, o) ==
    LET t == SinTol(x)
        c == FCos(x)
    IN  /\ IsF(o)
        /\ FSgn(o[2]) # 0 => ZLt(o[2][3], Z(5000))
        /\ LET v == FxOfF(o[2])
           IN  ZLe(ZAbs(ZSub(FxMul(v, c, FX), FSin(x))),
                   ZAdd(ZMul(Z(2), t), ZAdd(FxMul(ZAbs(v), ZAdd(TrigTol(x), Ulps(-118)), FX), ZPow2(8))))

(* asin from sixteen terms of the series at y = |x|, or at sqrt(1 - x^2)   *)
(* when that is smaller; atan likewise                                     *)
AsinTol(x) ==
    LET a2 == FxMul(FxOfF(x), FxOfF(x), FX)
        b2 == ZSub(FxOne(FX), a2)
        y2 == IF ZLe(a2, b2) THEN a2 ELSE b2
        y33 == FxMul(FxPow(y2, 16), FxSqrt(y2, FX), FX)
    IN  ZAdd(ZQuo(FxDiv(y33, ZSub(FxOne(FX), y2), FX), Z(230)), Ulps(-116))
FAbsLeOne(x) == FSgn(x) = 0 \/ ZLt(x[3], Z(-127)) \/ (ZAbs(x[2]) = FHalf /\ x[3] = Z(-127))
FAsinOK(x, o, F(_, _, _)) ==
    IF ~FAbsLeOne(x) THEN o = Panic
    ELSE LET t == FSgn(x) = 0 \/ ZLt(x[3], Z(-2 * FX))
         IN  FClose(o, IF t THEN F(ZZero, ZOne, FX) ELSE F(FP(x), FQ(x), FX), IF t THEN Ulps(-116) ELSE AsinTol(x))
AtanTol(x) ==
    LET a == ZAbs(FxOfF(x))
        b == IF ZLe(a, FxOne(FX)) THEN a ELSE FxDiv(FxOne(FX), a, FX)
        near1 == ZLt(ZQuo(ZMul(FxOne(FX), Z(7072)), Z(10000)), b)
        y == IF near1 THEN FxDiv(ZSub(FxOne(FX), b), ZAdd(FxOne(FX), b), FX) ELSE b
    IN  ZAdd(ZQuo(FxPow(y, 33), Z(32)), Ulps(-116))
FAtanOK(x, o) ==
    IF FSgn(x) = 0 \/ ZLt(x[3], Z(-2 * FX)) THEN FClose(o, ZZero, Ulps(-116))
    ELSE FClose(o, AtanR(FP(x), FQ(x), FX), AtanTol(x))

---------------------------------------------------------------------------
FConsts == {"ZERO", "ONE", "MAX", "MIN", "MIN_POSITIVE", "PI", "PI_OVER_2", "PI_OVER_3", "PI_OVER_4", "PI_OVER_6", "E",
            "SQRT_2", "SQRT_3", "SQRT_10", "ONE_OVER_SQRT_2", "LN_2", "LN_3", "LN_10"}
FOfMachine == {"of_u8", "of_u16", "of_u32", "of_u64", "of_usize", "of_u128",
               "of_i8", "of_i16", "of_i32", "of_i64", "of_isize", "of_i128"}

FAllowed(n, a, c, o) ==
    LET x == a[1]
        y == a[2]
        k == c[1][2]
    IN
    CASE n \in FConsts -> FConstOK(n, o)
      [] n = "add" -> FSumOK(x, y, o)
      [] n = "sub" -> FSumOK(x, FNegate(y), o)
      [] n = "mul" -> FMulOK(x, y, o)
      [] n = "div" -> FDivOK(x, y, o)
      [] n = "mul_i32" -> IF FSgn(x) = 0 \/ Sgn(k) = 0 THEN o = Ok(FZero)
                          ELSE IsF(o) /\ FNear(o[2], ZMul(x[2], k), ZOne, x[3], 2)
      [] n = "div_i32" -> IF Sgn(k) = 0 THEN o = Panic
                          ELSE IF FSgn(x) = 0 THEN o = Ok(FZero)
                          ELSE IsF(o) /\ FNear(o[2], IF Sgn(k) > 0 THEN x[2] ELSE ZNeg(x[2]), ZAbs(k), x[3], 2)
      [] n = "abs" -> o = Ok(IF FSgn(x) < 0 THEN FMk(ZNeg(x[2]), x[3]) ELSE x)
      [] n = "neg" -> o = Ok(FNegate(x))
      [] n = "shl" -> o = FScale(x, k)
      [] n = "shr" -> o = FScale(x, ZNeg(k))
      [] n = "step_epsilon" -> o = FStep(x)
      [] n = "is_integer" -> FHuge(x) \/ o = OkB(FIsInt(x))
      [] n \in BigCmp -> o = CmpResult(n, FCmp(x, y))
      [] n = "max" -> o = Ok(IF FCmp(x, y) <= 0 THEN y ELSE x)
      [] n = "min" -> o = Ok(IF FCmp(x, y) <= 0 THEN x ELSE y)
      [] n = "sort" -> o[1] = "ok" /\ o[2][1] = "l" /\ IsSorted(a, o[2][2], LAMBDA u, v : FCmp(u, v))
      [] n = "floor" -> o = Ok(FRoundBy(x, RFloor))
      [] n = "ceil" -> o = Ok(FRoundBy(x, RCeil))
      [] n = "round" -> o = Ok(FRoundBy(x, RRound))
      [] n = "truncate" -> o = Ok(FRoundBy(x, RTrunc))
      [] n = "frac" -> o = Ok(FFrac(x))
      [] n \in FOfMachine -> o = Ok(FOfZ(k))
      [] n \in ToUnsigned \cup ToSigned -> FToMachine(n, x, o)
      [] n \in OfFloat -> o = FOfFloat(FloatType(n), k)
      [] n \in ToFloat -> FToFloatOK(FloatType(n), x, o)
      [] n \in {"of_r", "of_r_own"} -> IF RIsZero(x) THEN o = Ok(FZero) ELSE IsF(o) /\ FNear(o[2], x[2], x[3], ZZero, 1)
      [] n \in {"to_r", "to_r_own"} -> IF Small(x[3], 32) THEN o = Ok(FR(x)) ELSE o = Panic    \* no room for so many limbs
      [] n = "from_str" -> FParseOK(k, o)
      [] n \in {"approx", "display"} -> TextOK(o, LAMBDA s : FApproxOK(x, s))
      [] n = "into_code13" -> IntoCodeOK(x, o)
      [] n = "from_code13" -> o = FromCode(k)
      [] n = "ilog2" -> IF FSgn(x) <= 0 THEN o = Panic ELSE o = Ok(FOfZ(ZAdd(x[3], Z(127))))
      [] n = "log2" -> IF FSgn(x) <= 0 THEN o = Panic ELSE LET v == FLog2(x) IN FClose(o, v, LogTol(v))
      [] n = "ln" -> IF FSgn(x) <= 0 THEN o = Panic ELSE LET v == FLn(x) IN FClose(o, v, LogTol(v))
      [] n = "pow2" -> FPow2OK(x, o)
      [] n = "powi" -> FPowiOK(x, k, o)
      [] n = "pow" -> FPowOK(x, y, o)
      [] n = "from_pow2" -> IF ZLe(k, ZAdd(FExpMin, Z(127))) THEN o = Ok(FZero) ELSE o = Ok(FDyadic(ZOne, k))
      [] n = "sqrt" -> FSqrtOK(x, o)
      [] n = "sin" -> FClose(o, FSin(x), SinTol(x))
      [] n = "cos" -> FClose(o, FCos(x), TrigTol(x))
      [] n = "tan" -> FTanOK(x, o)
      [] n = "asin" -> FAsinOK(x, o, AsinR)
      [] n = "acos" -> FAsinOK(x, o, AcosR)
      [] n = "atan" -> FAtanOK(x, o)
=============================================================================
