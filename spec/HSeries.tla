------------------------------ MODULE HSeries ------------------------------
(***************************************************************************)
(* The functions of Ratio that approximate a real number by a series or an *)
(* iteration, with a parameter n that says how far to go: the result's     *)
(* distance from the real value is at most what n terms leave over.        *)
(*                                                                         *)
(* The real values come from HReal; the bounds are rationals, rounded up.  *)
(***************************************************************************)
EXTENDS HRatio

RMax(x, y) == IF RLe(x, y) THEN y ELSE x
RMin(x, y) == IF RLe(x, y) THEN x ELSE y
RTwoR == RInt(ZTwo)
RQ(p, q) == R(Z(p), Z(q))
RScale(x, k) == R(ZMul(x[2], Z(k)), x[3])
(* a rational at least x >= 0, with a short representation *)
RUp(x) == IF RIsZero(x) THEN x
          ELSE LET s == ZBits(x[2]) - ZBits(x[3]) - 40
               IN  RMul(RInt(ZAdd(RFloor(RMul(x, RPow2(-s))), ZOne)), RPow2(s))
RECURSIVE RUpPow(_, _)
RUpPow(x, k) == IF k = 0 THEN ROne
                ELSE IF k % 2 = 0 THEN RUp(LET h == RUpPow(x, k \div 2) IN RMul(h, h))
                ELSE RUp(RMul(x, RUpPow(x, k - 1)))
Over(x, z) == R(x[2], ZMul(x[3], z))

(* fractional bits to work with when the error may be b *)
PrecFor(b) == IF RIsZero(b) THEN 512 ELSE LET k == ZBits(b[3]) - ZBits(b[2]) + 64 IN IF k < 128 THEN 128 ELSE IF k > 2200 THEN 2200 ELSE k
(* |v - t| <= b where t at precision P is F(P), within 256 units *)
NearTo(v, F(_), b) ==
    LET P == PrecFor(b)
        d == ZAbs(ZSub(RFloor(RMul(v, RPow2(P))), F(P)))
    IN  ZLe(d, ZAdd(RFloor(RMul(b, RPow2(P))), Z(258)))
NearRel(v, F(_), b, size) == NearTo(v, F, RUp(RMul(b, size)))

---------------------------------------------------------------------------
(* what n terms leave over *)
PiErr(n) == Over(RPow2(-8 * (n + 1)), Z(16 * (n + 1) * (n + 1)))
Ln2Err(n) == Over(RPow2(-6 * (n + 2)), Z(6 * (n + 2)))
EErr(n) == Over(ROne, ZMul(ZFact(19 + n), Z(19 + n)))

(* relative error of the exponential: the series of e^f to f^n/n!, and     *)
(* powers of the approximation of e                                        *)
ExpTail(f, n) == RScale(Over(RUpPow(RAbs(f), n + 1), ZFact(n + 1)), IF Sgn(f[2]) < 0 THEN 3 ELSE 1)
ExpRelErr(x, n) ==
    LET t == RTrunc(x)
        f == RFrac(x)
        g == IF RLe(RQ(9, 10), f) THEN RSub(ROne, f) ELSE f
        tail == ExpTail(g, n)
    IN  RUp(RAdd(RAdd(tail, RMul(tail, RQ(1, 2))), RMul(RInt(ZAdd(ZAbs(t), ZTwo)), EErr(n))))

(* ln: x = 2^k (1 + a), k the logarithm to base two rounded toward zero    *)
FloorLog2(x) == LET k == ZBits(x[2]) - ZBits(x[3])
                IN  IF RLe(RPow2(k), x) THEN k ELSE k - 1
TruncLog2(x) == LET k == FloorLog2(x) IN IF k >= 0 \/ x = RPow2(k) THEN k ELSE k + 1
LnTail(x, k, n) ==
    LET a == RSub(RMul(x, RPow2(-k)), ROne)
        m == 2 * n + 2
        p == Over(RUpPow(RAbs(a), m), Z(m))
        s == IF k >= 0 THEN k ELSE -k
    IN  RAdd(IF Sgn(a[2]) >= 0 THEN p ELSE RDiv(p, RAdd(ROne, a)), RScale(Ln2Err(n), s))
(* very close to a power of two the exponent chosen may be the next one *)
LnErr(x, n) ==
    LET k == TruncLog2(x)
        f == FloorLog2(x)
        b == LnTail(x, k, n)
        off == RSub(RMul(x, RPow2(-f)), ROne)
    IN  RUp(IF RLt(off, RPow2(-24)) \/ RLt(RSub(ROne, off), RPow2(-24))
            THEN RMax(b, RMax(LnTail(x, k + 1, n), RMax(LnTail(x, IF k > f THEN f ELSE k - 1, n), RZero)))
            ELSE b)

(* sine and cosine: y = |x - m pi/2| <= pi/4 *)
HalfPis(x) ==    \* <<m mod 2, y rounded up, m>>
    LET P == 192 + (IF ZBits(x[2]) > ZBits(x[3]) THEN ZBits(x[2]) - ZBits(x[3]) ELSE 0)
        v == FxOf(ZAbs(x[2]), x[3], P)
        h == PiF(P - 1)
        m == ZFloor(ZAdd(v, ZShift(h, -1)), h)
    IN  <<IF Sgn(ZRem(m, ZTwo)) = 0 THEN 0 ELSE 1, R(ZAdd(ZAbs(ZSub(v, ZMul(m, h))), Z(1000)), ZPow2(P)), m>>
SinErr(x, n, odd) ==    \* odd: 0 for sine, 1 for cosine
    LET hp == HalfPis(x)
        y == RUp(hp[2])
        s == Over(RUpPow(y, 4 * n + 5), ZFact(4 * n + 5))
        c == Over(RUpPow(y, 4 * n + 4), ZFact(4 * n + 4))
        edge == RLt(RAbs(RSub(y, RQ(7854, 10000))), RQ(1, 64))
        w == IF edge THEN RMax(s, c) ELSE IF hp[1] = odd THEN s ELSE c
    IN  RUp(RAdd(RMul(w, RQ(101, 100)), RMul(R(IF edge THEN ZAdd(hp[3], ZOne) ELSE hp[3], ZTwo), PiErr(n))))

(* arcsine: terms c_0 .. c_(n+1) with c_k = (2k)! / (4^k k!^2 (2k+1)).     *)
(* What is left is at most |x|^(2m+1) times the sum of the c_k from m on,  *)
(* and at most c_m |x|^(2m+1) / (1 - x^2).                                 *)
AsinC(k) == R(ZFact(2 * k), ZMul(ZMul(ZPow2(2 * k), ZMul(ZFact(k), ZFact(k))), Z(2 * k + 1)))
RECURSIVE AsinRest(_, _, _, _)
AsinRest(k, m, c, acc) ==    \* pi/2 - sum of c_k, k < m, in fixed point, 1024 bits; c = c_k
    IF k = m THEN ZAdd(acc, Z(4 * m + 16))
    ELSE AsinRest(k + 1, m, ZQuo(ZMul(c, Z((2 * k + 1) * (2 * k + 1))), Z((2 * k + 2) * (2 * k + 3))), ZSub(acc, c))
AsinErr(x, n) ==
    LET m == n + 2
        xm == RUpPow(RAbs(x), 2 * m + 1)
        rest == R(AsinRest(0, m, ZPow2(1024), PiF(1023)), ZPow2(1024))
        one == RSub(ROne, RMul(x, x))
    IN  RUp(RMul(xm, IF RIsZero(one) THEN rest ELSE RMin(rest, RDiv(AsinC(m), one))))
AtanErr(x, n) ==
    LET ax == RAbs(x)
        big == RLt(ROne, ax)
        y == IF big THEN RDiv(ROne, ax) ELSE ax
    IN  RUp(RAdd(Over(RUpPow(y, 4 * n + 5), Z(4 * n + 5)), IF big THEN PiErr(n) ELSE RZero))

CbrtBits(n) == IF n <= 3 THEN 11 * ToInt(ZPow2(n)) ELSE 150 + 64 * (n - 4)

---------------------------------------------------------------------------
ExpFx(x, P) == LET r == ExpMK(FxOf(x[2], x[3], P + 64), P + 64) IN ZShift(r[1], ToInt(r[2]) - 64)
(* e^x rounded up, for |x| < 2^20 *)
ExpSize(x) == LET r == ExpMK(FxOf(x[2], x[3], 128), 128) IN RMul(R(ZAdd(r[1], Z(1000)), ZPow2(128)), RPow2(ToInt(r[2])))
LnOf(x, P) == LnR(x[2], x[3], P)
LnRat(x) == R(LnOf(x, 2200), ZPow2(2200))

SeriesOps == {"pi_iter", "e_iter", "ln2_iter", "pi_const", "e_const", "ln2_const", "sqrt_iter", "cbrt_iter",
              "exp_iter", "ln_iter", "log_iter", "pow_iter", "sin_iter", "cos_iter", "tan_iter", "asin_iter",
              "acos_iter", "atan_iter"}

Below(v, F(_), b) ==    \* and v < the value
    LET P == PrecFor(b) IN NearTo(v, F, b) /\ ZLe(RFloor(RMul(v, RPow2(P))), F(P))
EF(P) == ZShift(ExpF(FxOne(P + 8), P + 8), -8)

SeriesOK(f, x, y, n, v) ==
    CASE f = "pi_iter" -> Below(v, PiF, PiErr(n))
      [] f = "pi_const" -> Below(v, PiF, PiErr(7))
      [] f = "ln2_iter" -> Below(v, Ln2F, Ln2Err(n))
      [] f = "ln2_const" -> Below(v, Ln2F, Ln2Err(11))
      [] f = "e_iter" -> Below(v, EF, EErr(n))
      [] f = "e_const" -> Below(v, EF, EErr(15))
      [] f = "sqrt_iter" ->      \* the square is within twice the relative error
            /\ Sgn(v[2]) = (IF Sgn(x[2]) = 0 THEN 0 ELSE 1)
            /\ RLe(RAbs(RSub(RMul(v, v), RAbs(x))), RMul(RAbs(x), RMul(RQ(5, 2), RPow2(-16 * (n + 1)))))
      [] f = "cbrt_iter" ->      \* the cube, three times
            /\ Sgn(v[2]) = Sgn(x[2])
            /\ RLe(RAbs(RSub(RMul(v, RMul(v, v)), x)), RMul(RAbs(x), RMul(RQ(10, 3), RPow2(-CbrtBits(n)))))
      [] f = "exp_iter" -> NearRel(v, LAMBDA P : ExpFx(x, P), ExpRelErr(x, n), ExpSize(x))
      [] f = "ln_iter" -> NearTo(v, LAMBDA P : LnOf(x, P), LnErr(x, n))
      [] f = "log_iter" ->
            LET lb == LnRat(x)
                lx == LnRat(y)
                q == RDiv(lx, lb)
                eb == LnErr(x, n)
                ex == LnErr(y, n)
                room == RSub(RAbs(lb), eb)
            IN  \/ ~RLt(RPow2(-2100), room)
                \/ RLe(RAbs(RSub(v, q)), RAdd(RUp(RDiv(RAdd(ex, RMul(RAbs(q), eb)), room)), RPow2(-2000)))
      [] f = "pow_iter" ->       \* x^y = e^(y ln x)
            IF RIsZero(x) THEN v = RZero
            ELSE LET w == RMul(y, LnRat(x))
                     d == RUp(RMul(RAbs(y), LnErr(x, n)))
                     lo == RSub(w, d)
                     hi == RAdd(w, d)
                     same == RTrunc(lo) = RTrunc(hi) /\ RTrunc(RSub(lo, RQ(1, 1000))) = RTrunc(RAdd(hi, RQ(1, 1000)))
                     far == ~RLe(RAbs(RSub(RFrac(w), RQ(9, 10))), RAdd(d, RQ(1, 1000)))
                     base == IF same /\ far THEN RMax(ExpRelErr(lo, n), ExpRelErr(hi, n))
                             ELSE RMax(ExpRelErr(w, n), RMul(ExpTail(RNeg(ROne), n), RTwoR))
                 IN  \/ ~RLt(d, Half)
                     \/ NearRel(v, LAMBDA P : ExpFx(w, P), RAdd(RMul(d, RTwoR), RMul(RTwoR, base)), ExpSize(w))
      [] f = "sin_iter" -> NearTo(v, LAMBDA P : SinR(x[2], x[3], P), SinErr(x, n, 0))
      [] f = "cos_iter" -> NearTo(v, LAMBDA P : CosR(x[2], x[3], P), SinErr(x, n, 1))
      [] f = "tan_iter" ->
            LET P == 700
                s == R(SinR(x[2], x[3], P), ZPow2(P))
                k == R(CosR(x[2], x[3], P), ZPow2(P))
                es == RAdd(SinErr(x, n, 0), RPow2(-690))
                ec == RAdd(SinErr(x, n, 1), RPow2(-690))
                room == RSub(RAbs(k), ec)
                t == RDiv(s, k)
            IN  \/ ~RLt(RZero, room)
                \/ RLe(RAbs(RSub(v, t)), RUp(RDiv(RAdd(es, RMul(RAbs(t), ec)), room)))
      [] f = "asin_iter" -> NearTo(v, LAMBDA P : AsinR(x[2], x[3], P), AsinErr(x, n))
      [] f = "acos_iter" -> NearTo(v, LAMBDA P : AcosR(x[2], x[3], P), RUp(RAdd(AsinErr(x, n), PiErr(n))))
      [] f = "atan_iter" -> NearTo(v, LAMBDA P : AtanR(x[2], x[3], P), AtanErr(x, n))

SeriesMustPanic(f, x, y) ==
    CASE f = "ln_iter" -> Sgn(x[2]) <= 0
      [] f = "log_iter" -> Sgn(x[2]) <= 0 \/ Sgn(y[2]) <= 0 \/ x = ROne
      [] f = "pow_iter" -> Sgn(x[2]) < 0
      [] f \in {"asin_iter", "acos_iter"} -> RLt(ROne, RAbs(x))
      [] OTHER -> FALSE
(* a logarithm to a base, or a tangent, whose divisor cannot be told from 0 *)
SeriesMayPanic(f, x, n) ==
    CASE f = "log_iter" -> ~RLt(LnErr(x, n), RAbs(LnRat(x)))
      [] f = "tan_iter" -> LET k == R(ZAbs(CosR(x[2], x[3], 700)), ZPow2(700)) IN ~RLt(SinErr(x, n, 1), k)
      [] OTHER -> FALSE

SeriesAllowed(f, a, c, o) ==
    LET n == IF Len(c) >= 1 THEN ToInt(c[1][2]) ELSE 0
        x == IF Len(a) >= 1 THEN a[1] ELSE RZero
        y == IF Len(a) >= 2 THEN a[2] ELSE RZero
    IN  IF SeriesMustPanic(f, x, y) THEN o = Panic
        ELSE \/ /\ o[1] = "ok" /\ o[2][1] = "r"
                /\ SeriesOK(f, x, y, n, o[2])
             \/ /\ o = Panic
                /\ SeriesMayPanic(f, x, n)
=============================================================================
