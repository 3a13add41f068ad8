------------------------------- MODULE HReal -------------------------------
(***************************************************************************)
(* Elementary functions of a real variable, as integers in fixed point:    *)
(* the integer v at precision P stands for v / 2^P.  Each function states  *)
(* how far its result is from the real value, in units of 2^-P.            *)
(*                                                                         *)
(* The series here are not the ones hmath uses; HRealCheck.tla checks      *)
(* them against the identities that define the functions.                  *)
(***************************************************************************)
EXTENDS BigNum, Integers, Sequences

FxMul(a, b, P) == ZShift(ZMul(a, b), -P)
FxDiv(a, b, P) == ZQuo(ZShift(a, P), b)
FxOne(P) == ZPow2(P)
FxInt(z, P) == ZShift(z, P)
(* the rational p/q *)
FxOf(p, q, P) == ZQuo(ZShift(p, P), q)
FxSqrt(x, P) == ZSqrt(ZShift(x, P))

---------------------------------------------------------------------------
(* exp *)
RECURSIVE ExpTerms(_, _, _, _, _)
ExpTerms(x, P, k, t, acc) ==
    IF Sgn(t) = 0 THEN acc
    ELSE LET u == ZQuo(FxMul(t, x, P), Z(k)) IN ExpTerms(x, P, k + 1, u, ZAdd(acc, u))
RECURSIVE SquareTimes(_, _, _)
SquareTimes(x, n, P) == IF n = 0 THEN x ELSE SquareTimes(FxMul(x, x, P), n - 1, P)

(* e^x for |x| <= 1, within 4 *)
ExpF(x, P) ==
    LET Q == P + 32
        r == ZShift(x, 32 - 8)
    IN  ZShift(SquareTimes(ExpTerms(r, Q, 1, FxOne(Q), FxOne(Q)), 8, Q), -32)

---------------------------------------------------------------------------
(* ln: square roots bring the argument near 1, then 2 artanh((m-1)/(m+1))  *)
RECURSIVE AtanhTerms(_, _, _, _, _)
AtanhTerms(z2, P, k, t, acc) ==     \* t = z^k
    IF Sgn(t) = 0 THEN acc
    ELSE AtanhTerms(z2, P, k + 2, FxMul(t, z2, P), ZAdd(acc, ZQuo(t, Z(k))))
RECURSIVE RootTimes(_, _, _)
RootTimes(m, n, P) == IF n = 0 THEN m ELSE RootTimes(FxSqrt(m, P), n - 1, P)

(* ln m for 1/2 <= m <= 2, within 4 *)
LnF(m, P) ==
    LET Q == P + 32
        r == RootTimes(ZShift(m, 32), 8, Q)
        z == FxDiv(ZSub(r, FxOne(Q)), ZAdd(r, FxOne(Q)), Q)
    IN  ZShift(AtanhTerms(FxMul(z, z, Q), Q, 1, z, ZZero), 9 - 32)

RECURSIVE AtanTerms(_, _, _, _, _)
AtanTerms(z2, P, k, t, acc) ==      \* t = +-z^k
    IF Sgn(t) = 0 THEN acc
    ELSE AtanTerms(z2, P, k + 2, ZNeg(FxMul(t, z2, P)), ZAdd(acc, ZQuo(t, Z(k))))
AtanSmall(z, P) == AtanTerms(FxMul(z, z, P), P, 1, z, ZZero)
(* constants, with 2400 fractional bits, as literals: TLC would evaluate   *)
(* a definition again at every use.  HRealCheck computes both, pi by       *)
(* Machin's formula.                                                       *)
CP == 2400
Ln2Computed == LnF(ZPow2(CP + 1), CP)
PiComputed == ZShift(ZSub(ZShift(AtanSmall(FxOf(ZOne, Z(5), CP + 32), CP + 32), 4),      \* pi/4 = 4 atan(1/5) - atan(1/239)
                          ZShift(AtanSmall(FxOf(ZOne, Z(239), CP + 32), CP + 32), 2)), -32)
Ln2C == <<1, 209, 147, 114, 161, 142, 220, 28, 115, 84, 37, 160, 68, 155, 136, 175, 48, 211, 230, 212, 150, 52, 152,
    150, 143, 198, 182, 112, 85, 238, 115, 226, 26, 149, 161, 152, 117, 61, 133, 101, 179, 179, 45, 22, 77, 139, 193,
    100, 80, 24, 181, 80, 95, 27, 179, 45, 27, 93, 115, 143, 7, 177, 108, 96, 108, 219, 60, 49, 174, 157, 123, 225,
    177, 121, 81, 93, 149, 44, 13, 53, 23, 84, 10, 72, 12, 163, 122, 254, 92, 1, 182, 77, 7, 130, 142, 20, 94, 138,
    127, 156, 106, 55, 163, 100, 53, 51, 155, 102, 37, 93, 9, 214, 209, 11, 30, 26, 76, 76, 81, 147, 147, 101, 78, 204,
    204, 51, 205, 121, 180, 50, 231, 67, 201, 229, 144, 137, 219, 117, 7, 70, 23, 150, 179, 0, 20, 222, 35, 46, 125,
    21, 250, 30, 252, 109, 157, 86, 238, 162, 81, 229, 143, 248, 48, 13, 97, 144, 251, 91, 251, 17, 202, 244, 7, 198,
    213, 63, 15, 197, 151, 45, 218, 162, 227, 32, 47, 135, 161, 95, 101, 72, 50, 48, 56, 189, 166, 223, 245, 202, 72,
    101, 157, 177, 135, 206, 114, 75, 247, 87, 118, 236, 160, 111, 37, 59, 96, 54, 177, 195, 155, 234, 185, 126, 56,
    124, 49, 17, 218, 203, 26, 197, 232, 74, 34, 22, 202, 150, 62, 37, 184, 105, 17, 41, 59, 87, 39, 68, 33, 56, 193,
    53, 174, 46, 237, 16, 27, 250, 74, 251, 82, 149, 85, 152, 172, 235, 109, 32, 118, 184, 231, 43, 250, 170, 139, 91,
    23, 13, 138, 45, 182, 152, 114, 38, 67, 243, 64, 175, 246, 242, 3, 152, 179, 227, 201, 171, 121, 207, 209, 247, 23,
    114, 177>>
PiC == <<1, 152, 72, 143, 59, 119, 134, 149, 40, 129, 83, 50, 122, 92, 207, 36, 108, 51, 186, 214, 175, 30, 147, 135,
    155, 22, 62, 92, 206, 246, 49, 24, 116, 93, 197, 169, 43, 42, 188, 111, 99, 17, 20, 238, 179, 147, 233, 114, 124,
    175, 134, 84, 161, 206, 232, 65, 17, 52, 92, 204, 180, 182, 16, 171, 42, 106, 57, 202, 85, 64, 20, 232, 99, 98,
    152, 72, 87, 148, 171, 85, 170, 243, 37, 85, 230, 96, 92, 96, 85, 218, 47, 175, 120, 39, 75, 49, 189, 193, 119, 21,
    215, 62, 138, 30, 176, 139, 14, 158, 108, 14, 24, 58, 96, 176, 220, 121, 142, 239, 56, 219, 184, 24, 121, 65, 202,
    240, 133, 96, 40, 35, 176, 209, 197, 19, 96, 242, 42, 57, 213, 48, 156, 181, 89, 90, 194, 29, 164, 84, 123, 238,
    74, 21, 130, 88, 205, 139, 113, 88, 182, 142, 114, 143, 116, 149, 13, 126, 61, 147, 244, 163, 254, 88, 164, 105,
    78, 87, 113, 216, 32, 105, 99, 22, 252, 142, 133, 226, 242, 1, 8, 247, 108, 145, 179, 71, 153, 161, 36, 153, 127,
    44, 241, 69, 144, 124, 186, 150, 126, 38, 106, 237, 175, 225, 184, 183, 223, 26, 208, 219, 114, 253, 47, 172, 181,
    223, 152, 166, 11, 49, 209, 27, 251, 121, 137, 217, 213, 22, 146, 23, 9, 71, 181, 181, 213, 132, 63, 221, 80, 124,
    201, 183, 41, 172, 192, 108, 12, 233, 52, 207, 102, 84, 190, 119, 19, 208, 56, 230, 33, 40, 69, 137, 108, 78, 236,
    152, 250, 46, 8, 208, 49, 159, 41, 34, 56, 9, 164, 68, 115, 112, 3, 46, 138, 25, 19, 211, 8, 163, 133, 136, 106,
    63, 36, 3>>
Ln2F(P) == ZShift(Ln2C, P - CP)
PiF(P) == ZShift(PiC, P - CP)

(* 2^x for 0 <= x <= 1, within 8 *)
Exp2F(x, P) == ZShift(ExpF(FxMul(ZShift(x, 8), Ln2F(P + 8), P + 8), P + 8), -8)

(* e^x for any x as <<m, k>>: m * 2^k, 1/2 <= m <= 2 in fixed point within *)
(* 8, for |x| < 2^40 *)
ExpMK(x, P) ==
    LET Q == P + 64
        y == ZShift(x, 64)
        k == ZFloor(y, Ln2F(Q))
    IN  <<ZShift(ExpF(ZSub(y, ZMul(k, Ln2F(Q))), Q), -64), k>>

(* ln of the rational p/q > 0, within 8, for arguments of any size *)
LnR(p, q, P) ==
    LET Q == P + 64
        k == ZBits(p) - ZBits(q)
        m == IF k >= 0 THEN FxOf(p, ZShift(q, k), Q) ELSE FxOf(ZShift(p, -k), q, Q)
    IN  ZShift(ZAdd(LnF(m, Q), ZMul(Z(k), Ln2F(Q))), -64)

---------------------------------------------------------------------------
(* sin and cos of |x| <= 4, within 16 *)
RECURSIVE SinTerms(_, _, _, _, _)
SinTerms(x2, P, k, t, acc) ==       \* t = +-x^k/k!
    IF Sgn(t) = 0 THEN acc
    ELSE LET u == ZNeg(ZQuo(FxMul(t, x2, P), Z((k + 1) * (k + 2))))
         IN  SinTerms(x2, P, k + 2, u, ZAdd(acc, u))
SinF(x, P) == LET Q == P + 32
                  y == ZShift(x, 32)
              IN  ZShift(SinTerms(FxMul(y, y, Q), Q, 1, y, y), -32)
CosF(x, P) == LET Q == P + 32
                  y == ZShift(x, 32)
              IN  ZShift(SinTerms(FxMul(y, y, Q), Q, 0, FxOne(Q), FxOne(Q)), -32)
(* x reduced to [-pi, pi]; x has |x| < 2^600 *)
Reduce(x, P) == LET tau == ZShift(PiF(P + 1), 0)       \* 2 pi at precision P
                    k == ZFloor(ZAdd(x, ZShift(tau, -1)), tau)
                IN  <<k, ZSub(x, ZMul(k, tau))>>
(* sin and cos of the rational p/q, within 32 *)
TrigR(p, q, P, F(_, _)) ==
    LET b == ZBits(p) - ZBits(q)
        Q == P + 32 + (IF b > 0 THEN b ELSE 0)
        x == FxOf(p, q, Q)
        r == Reduce(x, Q)[2]
    IN  ZShift(F(ZShift(r, (P + 32) - Q), P + 32), -32)
SinR(p, q, P) == TrigR(p, q, P, SinF)
CosR(p, q, P) == TrigR(p, q, P, CosF)

---------------------------------------------------------------------------
(* atan: halving the angle seven times, then the series.  The rational p/q *)
(* of any size, within 32.                                                 *)
RECURSIVE HalfAngle(_, _, _)
HalfAngle(z, n, P) ==
    IF n = 0 THEN z
    ELSE HalfAngle(FxDiv(z, ZAdd(FxOne(P), FxSqrt(ZAdd(FxOne(P), FxMul(z, z, P)), P)), P), n - 1, P)
AtanF(z, P) ==                      \* |z| <= 1
    LET Q == P + 32 IN ZShift(AtanSmall(HalfAngle(ZShift(z, 32), 7, Q), Q), 7 - 32)
AtanR(p, q, P) ==
    IF ZLe(ZAbs(p), q) THEN AtanF(FxOf(p, q, P), P)
    ELSE ZSub(IF Sgn(p) > 0 THEN PiF(P - 1) ELSE ZNeg(PiF(P - 1)), AtanF(FxOf(q, p, P), P))
(* asin of the rational p/q, |p/q| <= 1: atan of x / sqrt(1 - x^2), from   *)
(* exact integers; within 64                                               *)
AsinR(p, q, P) ==
    IF ZAbs(p) = q THEN (IF Sgn(p) > 0 THEN PiF(P - 1) ELSE ZNeg(PiF(P - 1)))
    ELSE LET Q == P + 32
             c == ZSqrt(ZShift(ZMul(ZSub(q, p), ZAdd(q, p)), 2 * Q))     \* q cos, times 2^Q
         IN  ZShift(AtanR(ZShift(p, Q), c, Q), -32)
AcosR(p, q, P) == ZSub(PiF(P - 1), AsinR(p, q, P))
=============================================================================
