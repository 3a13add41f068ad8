------------------------------ MODULE HValues ------------------------------
(***************************************************************************)
(* The values hmath computes with: what a stored representation (the limbs *)
(* and flags a program can see through into_raw, the bits of an F192, the  *)
(* entries of a matrix ...) denotes, and when it is well formed.           *)
(*                                                                         *)
(* A representation ("literal") is a tuple whose first element is a tag;   *)
(* the abstract value is a tuple with the same tag:                        *)
(*                                                                         *)
(*   <<"u", limbBytes>>                      UBigInt      <<"u", z>>        *)
(*   <<"i", neg, limbBytes>>                 BigInt       <<"i", z>>        *)
(*   <<"r", nneg, numer, dneg, denom>>       Ratio        <<"r", p, q>>     *)
(*   <<"c", r, r>>                           Complex      <<"c", r, r>>     *)
(*   <<"f", digits, exp>>                    F192         <<"f", m, e>>     *)
(*                                           (the value is m * 2^e)        *)
(*   <<"m", rows, cols, consistent, rows>>   Matrix       <<"m", r, c, rs>> *)
(*   <<"p", coefficients>>                   Polynomial   <<"p", coeffs>>   *)
(*   <<"n", neg, bytes>>                     machine integer (or the bits  *)
(*                                           of a float)  <<"n", z>>        *)
(*   <<"b", bool>>  <<"s", utf8 bytes>>  <<"o", -1/0/1>>  <<"l", list>>     *)
(*   <<"x">>        nothing                                                *)
(*                                                                         *)
(* Integers z are the tuples of module BigNum.                             *)
(***************************************************************************)
EXTENDS BigNum, Integers, Sequences

Top(bs) == bs[Len(bs)] + bs[Len(bs) - 1] + bs[Len(bs) - 2] + bs[Len(bs) - 3]

(* Canonical limbs: whole 32-bit limbs, at least one, and no most          *)
(* significant zero limb unless it is the only one.                        *)
LimbsOK(bs) == /\ Len(bs) >= 4
               /\ Len(bs) % 4 = 0
               /\ Len(bs) > 4 => Top(bs) > 0
IsZeroBytes(bs) == Sgn(ZOfBytes(bs)) = 0

Signed(neg, bs) == IF neg = 1 THEN ZNeg(ZOfBytes(bs)) ELSE ZOfBytes(bs)

(* F192: bit 127 of digits is the sign, the magnitude is 2^127 + the other *)
(* bits, scaled by 2^(exp - 2^48); digits = exp = 0 is zero.               *)
FBias == ZPow2(48)
FHalf == ZPow2(127)

RECURSIVE WF(_)
WF(l) ==
    CASE l[1] = "u" -> LimbsOK(l[2])
      [] l[1] = "i" -> LimbsOK(l[3]) /\ (l[2] = 1 => ~IsZeroBytes(l[3]))
      [] l[1] = "r" -> /\ LimbsOK(l[3]) /\ LimbsOK(l[5])
                       /\ l[4] = 0
                       /\ ~IsZeroBytes(l[5])
                       /\ l[2] = 1 => ~IsZeroBytes(l[3])
                       /\ ZGcd(ZOfBytes(l[3]), ZOfBytes(l[5])) = ZOne
      [] l[1] = "c" -> WF(l[2]) /\ WF(l[3])
      [] l[1] = "m" -> /\ l[4]
                       /\ Len(l[5]) = l[2]
                       /\ \A i \in 1..Len(l[5]) : /\ Len(l[5][i]) = l[3]
                                                  /\ \A j \in 1..Len(l[5][i]) : WF(l[5][i][j])
      [] l[1] = "p" -> /\ Len(l[2]) >= 1
                       /\ Len(l[2]) > 1 => ~IsZeroBytes(l[2][1][3])
                       /\ \A i \in 1..Len(l[2]) : WF(l[2][i])
      [] l[1] = "l" -> \A i \in 1..Len(l[2]) : WF(l[2][i])
      [] OTHER -> TRUE

FAbs(db, eb) ==
    LET d == ZOfBytes(db)
        e == ZOfBytes(eb)
    IN  IF Sgn(d) = 0 /\ Sgn(e) = 0 THEN <<"f", ZZero, ZZero>>
        ELSE IF ZLe(FHalf, d) THEN <<"f", ZNeg(d), ZSub(e, FBias)>>
        ELSE <<"f", ZAdd(d, FHalf), ZSub(e, FBias)>>

RECURSIVE Abs(_)
Abs(l) ==
    CASE l[1] = "u" -> <<"u", ZOfBytes(l[2])>>
      [] l[1] = "i" -> <<"i", Signed(l[2], l[3])>>
      [] l[1] = "r" -> <<"r", Signed(l[2], l[3]), Signed(l[4], l[5])>>
      [] l[1] = "f" -> FAbs(l[2], l[3])
      [] l[1] = "c" -> <<"c", Abs(l[2]), Abs(l[3])>>
      [] l[1] = "m" -> <<"m", l[2], l[3], [i \in 1..Len(l[5]) |-> [j \in 1..Len(l[5][i]) |-> Abs(l[5][i][j])]]>>
      [] l[1] = "p" -> <<"p", [i \in 1..Len(l[2]) |-> Abs(l[2][i])]>>
      [] l[1] = "n" -> <<"n", Signed(l[2], l[3])>>
      [] l[1] = "l" -> <<"l", [i \in 1..Len(l[2]) |-> Abs(l[2][i])]>>
      [] OTHER -> l

(* Outcomes of a call. *)
Ok(v) == <<"ok", v>>
Panic == <<"panic">>
Err == <<"err">>

U(z) == <<"u", z>>
I(z) == <<"i", z>>
B(b) == <<"b", b>>
N(z) == <<"n", z>>
O(c) == <<"o", c>>
S(bs) == <<"s", bs>>
L(s) == <<"l", s>>
Undef == <<"x">>

OkU(z) == Ok(U(z))
OkI(z) == Ok(I(z))
OkB(b) == Ok(B(b))
OkN(z) == Ok(N(z))
OkO(c) == Ok(O(c))

(* Rationals: lowest terms, positive denominator. *)
R(p, q) == LET g == ZGcd(p, q)
           IN  IF Sgn(q) > 0 THEN <<"r", ZQuo(p, g), ZQuo(q, g)>>
               ELSE <<"r", ZQuo(ZNeg(p), g), ZQuo(ZNeg(q), g)>>
RInt(z) == <<"r", z, ZOne>>
OkR(p, q) == Ok(R(p, q))
RZero == RInt(ZZero)
ROne == RInt(ZOne)
RAdd(x, y) == R(ZAdd(ZMul(x[2], y[3]), ZMul(y[2], x[3])), ZMul(x[3], y[3]))
RNeg(x) == <<"r", ZNeg(x[2]), x[3]>>
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == R(ZMul(x[2], y[2]), ZMul(x[3], y[3]))
RDiv(x, y) == R(ZMul(x[2], y[3]), ZMul(x[3], y[2]))
RAbs(x) == <<"r", ZAbs(x[2]), x[3]>>
RCmp(x, y) == ZCmp(ZMul(x[2], y[3]), ZMul(y[2], x[3]))
RLe(x, y) == RCmp(x, y) <= 0
RLt(x, y) == RCmp(x, y) < 0
RIsZero(x) == Sgn(x[2]) = 0
RFloor(x) == ZFloor(x[2], x[3])
RTrunc(x) == ZQuo(x[2], x[3])
RPow2(k) == IF k >= 0 THEN RInt(ZPow2(k)) ELSE <<"r", ZOne, ZPow2(-k)>>
(* x^k for an integer k; x # 0 when k < 0 *)
RPow(x, k) == IF k >= 0 THEN <<"r", ZPow(x[2], k), ZPow(x[3], k)>>
              ELSE R(ZPow(x[3], -k), ZPow(x[2], -k))

FitsUnsigned(z, bits) == Sgn(z) >= 0 /\ ZBits(z) <= bits
FitsSigned(z, bits) == /\ ZLt(z, ZPow2(bits - 1))
                       /\ ZLe(ZNeg(ZPow2(bits - 1)), z)
=============================================================================
