------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* The integer operators the hmath specification is written with.  Each is *)
(* defined to be the operator of the same name in BigNumDef (plain TLA+);  *)
(* TLC evaluates them through the module override spec/java/BigNum.java.   *)
(* BigNumCheck.tla checks that override against BigNumDef.                 *)
(***************************************************************************)
LOCAL D == INSTANCE BigNumDef

Z(n) == D!Z(n)
ToInt(x) == D!ToInt(x)
ZNeg(x) == D!ZNeg(x)
ZAbs(x) == D!ZAbs(x)
ZCmp(a, b) == D!ZCmp(a, b)
ZLt(a, b) == D!ZLt(a, b)
ZLe(a, b) == D!ZLe(a, b)
ZAdd(a, b) == D!ZAdd(a, b)
ZSub(a, b) == D!ZSub(a, b)
ZMul(a, b) == D!ZMul(a, b)
ZQuo(a, b) == D!ZQuo(a, b)
ZRem(a, b) == D!ZRem(a, b)
ZFloor(a, b) == D!ZFloor(a, b)
ZMod(a, b) == D!ZMod(a, b)
ZPow(x, n) == D!ZPow(x, n)
ZPow2(n) == D!ZPow2(n)
ZShift(x, n) == D!ZShift(x, n)
ZGcd(a, b) == D!ZGcd(a, b)
ZBits(x) == D!ZBits(x)
ZSqrt(x) == D!ZSqrt(x)
ZFact(n) == D!ZFact(n)
ZOfDigits(ds, radix) == D!ZOfDigits(ds, radix)
ZDigits(x, radix) == D!ZDigits(x, radix)
ZOfBytes(bs) == D!ZOfBytes(bs)
ZIsPrime(x) == D!ZIsPrime(x)
IsZ(x) == D!IsZ(x)

Sgn(x) == x[1]
ZZero == <<0>>
ZOne == <<1, 1>>
ZTwo == <<1, 2>>
ZTen == <<1, 10>>
ZMin(a, b) == IF ZLe(a, b) THEN a ELSE b
ZMax(a, b) == IF ZLe(a, b) THEN b ELSE a
=============================================================================
