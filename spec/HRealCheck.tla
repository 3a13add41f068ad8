----------------------------- MODULE HRealCheck -----------------------------
(***************************************************************************)
(* The fixed-point functions of HReal satisfy the identities that define   *)
(* the functions they stand for, within the error they state.  A behaviour *)
(* walks over arguments k/D and precisions.                                *)
(***************************************************************************)
EXTENDS HReal

CONSTANTS D, Last, Precs
VARIABLES k, P
vars == <<k, P>>
Init == k = 0 /\ P \in Precs
Next == P' = P /\ k' \in {2 * k + 1, 2 * k + 2} /\ k' <= Last      \* every argument once
Spec == Init /\ [][Next]_vars

Close(a, b, tol) == ZLe(ZAbs(ZSub(a, b)), Z(tol))
x == FxOf(Z(k), Z(D), P)                \* k/D
One == FxOne(P)

ConstLaws == k = 0 => Close(PiC, PiComputed, 8) /\ Close(Ln2C, Ln2Computed, 8)
(* e^(a+b) = e^a e^b, e^-a = 1/e^a, and e^x >= 1 + x with equality at 0    *)
ExpLaws == k <= D =>
    LET e == ExpF(x, P) h == ExpF(ZShift(x, -1), P)
    IN  /\ Close(FxMul(h, h, P), e, 24)
        /\ Close(FxMul(e, ExpF(ZNeg(x), P), P), One, 24)
        /\ ZLe(ZAdd(One, x), ZAdd(e, Z(4)))
        /\ k = 0 => Close(e, One, 1)
        \* the derivative at 0 is 1: e^t - 1 - t is between 0 and t^2 for small t
        /\ LET t == ZPow2(P - 40) u == ZSub(ExpF(t, P), ZAdd(One, t)) IN ZLe(ZNeg(Z(4)), u) /\ ZLe(u, ZAdd(FxMul(t, t, P), Z(4)))
(* ln is the inverse of exp, and turns products into sums *)
LnLaws == (k >= 1 /\ k <= D) =>
    LET m == ZAdd(One, x) l == LnF(m, P)    \* 1 < m <= 2
    IN  /\ Close(ExpF(l, P), m, 32)
        /\ Close(LnF(FxDiv(One, m, P), P), ZNeg(l), 24)
        /\ Close(LnR(Z(k), Z(D), P), ZNeg(LnR(Z(D), Z(k), P)), 24)
        /\ Close(ZAdd(LnR(Z(k), Z(D), P), LnR(Z(D + k), Z(7), P)), LnR(Z(k * (D + k)), Z(7 * D), P), 32)
        /\ Close(LnF(FxInt(ZTwo, P), P), Ln2F(P), 16)
        /\ LET q == ExpMK(FxOf(Z(37 * k), Z(D), P), P)      \* and for large arguments
           IN  Close(ZAdd(LnF(q[1], P), ZMul(q[2], Ln2F(P))), FxOf(Z(37 * k), Z(D), P), 64)
        /\ Close(FxMul(Exp2F(x, P), Exp2F(ZSub(One, x), P), P), FxInt(ZTwo, P), 64)
(* sin^2 + cos^2 = 1, the addition theorem, sin t ~ t, the period *)
TrigLaws ==
    LET s == SinR(Z(k), Z(D), P) c == CosR(Z(k), Z(D), P)
        s2 == SinR(Z(2 * k), Z(D), P) c2 == CosR(Z(2 * k), Z(D), P)
        s1 == SinR(ZOne, ZOne, P) c1 == CosR(ZOne, ZOne, P)
    IN  /\ Close(ZAdd(FxMul(s, s, P), FxMul(c, c, P)), One, 160)
        /\ Close(s2, ZMul(ZTwo, FxMul(s, c, P)), 200)
        /\ Close(c2, ZSub(FxMul(c, c, P), FxMul(s, s, P)), 200)
        /\ Close(SinR(Z(k + D), Z(D), P), ZAdd(FxMul(s, c1, P), FxMul(c, s1, P)), 200)
        /\ SinR(Z(-k), Z(D), P) = ZNeg(s) /\ CosR(Z(-k), Z(D), P) = c
        /\ Close(SinR(ZAdd(Z(k), ZMul(Z(D), ZPow2(70))), Z(D), P),
                 ZAdd(FxMul(s, CosR(ZPow2(70), ZOne, P), P), FxMul(c, SinR(ZPow2(70), ZOne, P), P)), 300)
        /\ LET t == ZPow2(P - 40) d == ZSub(t, SinF(t, P)) IN ZLe(ZNeg(Z(20)), d) /\ ZLe(d, ZAdd(FxMul(FxMul(t, t, P), t, P), Z(20)))
        /\ Close(SinF(PiF(P), P), ZZero, 40) /\ Close(CosF(PiF(P), P), ZNeg(One), 40)
        /\ Close(SinF(PiF(P - 1), P), One, 40) /\ ZLt(Z(3), ZShift(PiF(P), 1 - P)) /\ ZLt(PiF(P), ZShift(ZOne, P + 2))
(* atan, asin and acos are inverses of tan, sin and cos *)
ArcLaws ==
    LET a == AtanR(Z(k), Z(D), P)
        v == SinF(a, P) w == CosF(a, P)
    IN  /\ Close(FxMul(v, Z(D), 0), FxMul(w, Z(k), 0), 200 * (k + D))    \* tan a = k/D
        /\ Sgn(w) > 0
        /\ AtanR(Z(-k), Z(D), P) = ZNeg(a) \/ Close(AtanR(Z(-k), Z(D), P), ZNeg(a), 2)
        /\ k <= D => LET b == AsinR(Z(k), Z(D), P)
                     IN  /\ Close(SinF(b, P), x, 160)
                         /\ Sgn(b) >= 0 /\ ZLe(b, ZAdd(PiF(P - 1), Z(64)))
                         /\ Close(ZAdd(b, AcosR(Z(k), Z(D), P)), PiF(P - 1), 160)
                         /\ Close(CosF(AcosR(Z(k), Z(D), P), P), x, 200)
=============================================================================
