---------------------------- MODULE BigNumCheck ----------------------------
(***************************************************************************)
(* The integer arithmetic the specification is evaluated with:             *)
(*   - BigNumDef (plain TLA+) agrees with TLC's integers where those reach *)
(*   - BigNum as TLC evaluates it (spec/java/BigNum.java) agrees with      *)
(*     BigNumDef on integers of up to MaxDigits base-256 digits taken from *)
(*     boundary digits, and satisfies the equations that define quotient,  *)
(*     remainder, root and gcd                                             *)
(* A behaviour builds the integers x and y digit by digit.                 *)
(***************************************************************************)
EXTENDS BigNum, Integers, Sequences
D == INSTANCE BigNumDef

CONSTANTS MaxX, MaxY, DigitSet, Range
VARIABLES x, y
vars == <<x, y>>

Digit1 == {0, 1, 2, 127, 128, 255}
Few == {0, 1, 255}
Init == x = ZZero /\ y = ZZero
More(z, d) == LET m == ZAdd(ZMul(ZAbs(z), Z(256)), Z(d)) IN {m, ZNeg(m)}
Next == \/ Len(x) <= MaxX /\ \E d \in DigitSet : x' \in More(x, d) /\ y' = y
        \/ Len(y) <= MaxY /\ \E d \in DigitSet : y' \in More(y, d) /\ x' = x
Spec == Init /\ [][Next]_vars

Same == /\ IsZ(x) /\ D!IsZ(x)
        /\ ZNeg(x) = D!ZNeg(x) /\ ZAbs(x) = D!ZAbs(x)
        /\ ZCmp(x, y) = D!ZCmp(x, y) /\ ZLt(x, y) = D!ZLt(x, y) /\ ZLe(x, y) = D!ZLe(x, y)
        /\ ZAdd(x, y) = D!ZAdd(x, y) /\ ZSub(x, y) = D!ZSub(x, y) /\ ZMul(x, y) = D!ZMul(x, y)
        /\ Sgn(y) # 0 => /\ ZQuo(x, y) = D!ZQuo(x, y) /\ ZRem(x, y) = D!ZRem(x, y)
                         /\ ZFloor(x, y) = D!ZFloor(x, y) /\ ZMod(x, y) = D!ZMod(x, y)
        /\ ZGcd(x, y) = D!ZGcd(x, y)
        /\ ZBits(x) = D!ZBits(x)
        /\ ZSqrt(ZAbs(x)) = D!ZSqrt(ZAbs(x))
        /\ \A k \in {0, 1, 7, 8, 13} : ZShift(x, k) = D!ZShift(x, k) /\ ZShift(x, -k) = D!ZShift(x, -k)
        /\ \A k \in 0..3 : ZPow(x, k) = D!ZPow(x, k)
        /\ \A r \in {2, 8, 10, 16} : LET d == ZDigits(ZAbs(x), r)
                                         IN  d = D!ZDigits(ZAbs(x), r) /\ ZOfDigits(d, r) = ZAbs(x) /\ D!ZOfDigits(d, r) = ZAbs(x)
        /\ LET d == D!ZDigits(ZAbs(x), 62) IN ZOfDigits(d, 62) = ZAbs(x) /\ D!ZOfDigits(d, 62) = ZAbs(x)
        /\ LET m == Tail(x) IN ZOfBytes(m) = ZAbs(x) /\ D!ZOfBytes(m \o <<0, 0>>) = ZAbs(x) /\ ZOfBytes(m \o <<0>>) = ZAbs(x)

Defining ==
    /\ Sgn(y) # 0 =>
         /\ ZAdd(ZMul(ZQuo(x, y), y), ZRem(x, y)) = x
         /\ ZLt(ZAbs(ZRem(x, y)), ZAbs(y)) /\ Sgn(ZRem(x, y)) \in {0, Sgn(x)}
         /\ ZAdd(ZMul(ZFloor(x, y), y), ZMod(x, y)) = x
         /\ Sgn(ZMod(x, y)) \in {0, Sgn(y)}
    /\ LET s == ZSqrt(ZAbs(x)) t == ZAdd(s, ZOne) IN ZLe(ZMul(s, s), ZAbs(x)) /\ ZLt(ZAbs(x), ZMul(t, t))
    /\ LET g == ZGcd(x, y) IN (Sgn(g) = 0) <=> (Sgn(x) = 0 /\ Sgn(y) = 0)

(* small integers, checked once *)
Trunc(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
Ints == (-Range)..Range
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Small == (x = ZZero /\ y = ZZero) =>
    /\ \A n \in Ints \cup {-65536, -65535, 65535, 65536, 16777216, 2147483647} : D!ToInt(D!Z(n)) = n /\ Z(n) = D!Z(n) /\ ToInt(Z(n)) = n /\ D!IsZ(D!Z(n))
    /\ \A a, b \in Ints :
         /\ D!ZAdd(D!Z(a), D!Z(b)) = D!Z(a + b)
         /\ D!ZSub(D!Z(a), D!Z(b)) = D!Z(a - b)
         /\ D!ZMul(D!Z(a), D!Z(b)) = D!Z(a * b)
         /\ (D!ZCmp(D!Z(a), D!Z(b)) < 0) = (a < b)
         /\ b # 0 => /\ D!ZQuo(D!Z(a), D!Z(b)) = D!Z(Trunc(a, b))
                     /\ D!ZRem(D!Z(a), D!Z(b)) = D!Z(a - b * Trunc(a, b))
                     /\ b > 0 => D!ZFloor(D!Z(a), D!Z(b)) = D!Z(a \div b) /\ D!ZMod(D!Z(a), D!Z(b)) = D!Z(a % b)
    /\ \A n \in 0..10 : D!ZFact(n) = D!Z(Fact(n)) /\ ZFact(n) = D!Z(Fact(n)) /\ D!ZPow2(n) = D!Z(2 ^ n) /\ ZPow2(n) = D!ZPow2(n)
    /\ \A n \in 0..400 : ZIsPrime(Z(n)) = D!ZIsPrime(D!Z(n))
    /\ ZFact(30) = D!ZFact(30)
    /\ \A n \in {32, 64, 100} : ZPow2(n) = D!ZPow2(n)
=============================================================================
