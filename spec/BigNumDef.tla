------------------------------ MODULE BigNumDef ------------------------------
(***************************************************************************)
(* Arbitrary-precision integers, written out in TLA+.                      *)
(*                                                                         *)
(* TLC's own integers are 32 bits wide, so the integers that hmath's       *)
(* values denote are represented here as tuples:                           *)
(*                                                                         *)
(*      <<sgn, d1, d2, ..., dn>>       sgn \in {-1, 0, 1}                  *)
(*                                                                         *)
(* denotes  sgn * (d1 + d2*256 + ... + dn*256^(n-1)),  with dn # 0, and    *)
(* zero is <<0>>.  The representation is unique, so TLA+ equality is       *)
(* numeric equality.                                                       *)
(*                                                                         *)
(* Everything below is plain TLA+.  Module BigNum re-exports these         *)
(* definitions, and spec/java/BigNum.java evaluates the re-exported ones   *)
(* with java.math.BigInteger; BigNumCheck compares the two, and compares   *)
(* these definitions with TLC's integers.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 256

---------------------------------------------------------------------------
(* Magnitudes: little-endian digit sequences without trailing zeros.       *)

RECURSIVE NNorm(_)
NNorm(s) == IF s = <<>> THEN s
            ELSE IF s[Len(s)] = 0 THEN NNorm(SubSeq(s, 1, Len(s) - 1))
            ELSE s

Dig(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

MaxI(a, b) == IF a >= b THEN a ELSE b

RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1
                   ELSE IF a[i] > b[i] THEN 1
                   ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE NCmpAt(a, b, Len(a))

RECURSIVE NAddAt(_, _, _, _, _)
NAddAt(a, b, i, carry, acc) ==
    IF i > MaxI(Len(a), Len(b))
    THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
    ELSE LET t == Dig(a, i) + Dig(b, i) + carry
         IN  NAddAt(a, b, i + 1, t \div Base, Append(acc, t % Base))
NAdd(a, b) == NAddAt(a, b, 1, 0, <<>>)

RECURSIVE NSubAt(_, _, _, _, _)
NSubAt(a, b, i, borrow, acc) ==
    IF i > Len(a) THEN NNorm(acc)
    ELSE LET t == a[i] - Dig(b, i) - borrow
         IN  IF t < 0 THEN NSubAt(a, b, i + 1, 1, Append(acc, t + Base))
             ELSE NSubAt(a, b, i + 1, 0, Append(acc, t))
NSub(a, b) == NSubAt(a, b, 1, 0, <<>>)          \* requires a >= b

RECURSIVE NMulDigAt(_, _, _, _, _)
NMulDigAt(a, d, i, carry, acc) ==
    IF i > Len(a) THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
    ELSE LET t == a[i] * d + carry
         IN  NMulDigAt(a, d, i + 1, t \div Base, Append(acc, t % Base))
NMulDig(a, d) == IF d = 0 THEN <<>> ELSE NMulDigAt(a, d, 1, 0, <<>>)

NShift(a) == IF a = <<>> THEN a ELSE <<0>> \o a

RECURSIVE NMulAt(_, _, _, _)
NMulAt(a, b, i, acc) ==
    IF i = 0 THEN acc
    ELSE NMulAt(a, b, i - 1, NAdd(NShift(acc), NMulDig(a, b[i])))
NMul(a, b) == IF a = <<>> THEN <<>> ELSE NMulAt(a, b, Len(b), <<>>)

(* the largest d in lo..hi with d*b <= r, knowing lo*b <= r                *)
RECURSIVE QDig(_, _, _, _)
QDig(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF NCmp(NMulDig(b, mid), r) <= 0 THEN QDig(r, b, mid, hi)
             ELSE QDig(r, b, lo, mid - 1)

RECURSIVE NDivAt(_, _, _, _, _)
NDivAt(a, b, i, q, r) ==
    IF i = 0 THEN <<NNorm(q), r>>
    ELSE LET r1 == NNorm(<<a[i]>> \o r)
             d  == QDig(r1, b, 0, Base - 1)
         IN  NDivAt(a, b, i - 1, <<d>> \o q, NSub(r1, NMulDig(b, d)))
NDivMod(a, b) == NDivAt(a, b, Len(a), <<>>, <<>>)

---------------------------------------------------------------------------
(* Signed integers.                                                        *)

ZZero == <<0>>
Sgn(x) == x[1]
Mag(x) == Tail(x)
Mk(s, m) == IF m = <<>> THEN ZZero ELSE <<s>> \o m

IsZ(x) == /\ Len(x) >= 1
          /\ x[1] \in {-1, 0, 1}
          /\ (x[1] = 0) = (Len(x) = 1)
          /\ \A i \in 2..Len(x) : x[i] \in 0..(Base - 1)
          /\ (Len(x) > 1 => x[Len(x)] # 0)

RECURSIVE IntMag(_)
IntMag(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o IntMag(n \div Base)
RECURSIVE MagInt(_)
MagInt(m) == IF m = <<>> THEN 0 ELSE m[1] + Base * MagInt(Tail(m))

Z(n) == IF n = 0 THEN ZZero ELSE IF n > 0 THEN Mk(1, IntMag(n)) ELSE Mk(-1, IntMag(-n))
ToInt(x) == Sgn(x) * MagInt(Mag(x))             \* for values TLC can hold

ZNeg(x) == IF Sgn(x) = 0 THEN x ELSE <<-Sgn(x)>> \o Mag(x)
ZAbs(x) == IF Sgn(x) < 0 THEN ZNeg(x) ELSE x

ZCmp(a, b) == IF Sgn(a) < Sgn(b) THEN -1
              ELSE IF Sgn(a) > Sgn(b) THEN 1
              ELSE Sgn(a) * NCmp(Mag(a), Mag(b))
ZLt(a, b) == ZCmp(a, b) < 0
ZLe(a, b) == ZCmp(a, b) <= 0

ZAdd(a, b) ==
    IF Sgn(a) = 0 THEN b
    ELSE IF Sgn(b) = 0 THEN a
    ELSE IF Sgn(a) = Sgn(b) THEN Mk(Sgn(a), NAdd(Mag(a), Mag(b)))
    ELSE IF NCmp(Mag(a), Mag(b)) >= 0 THEN Mk(Sgn(a), NSub(Mag(a), Mag(b)))
    ELSE Mk(Sgn(b), NSub(Mag(b), Mag(a)))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == Mk(Sgn(a) * Sgn(b), NMul(Mag(a), Mag(b)))

(* Division truncating toward zero; the remainder has the dividend's sign. *)
ZQuo(a, b) == Mk(Sgn(a) * Sgn(b), NDivMod(Mag(a), Mag(b))[1])
ZRem(a, b) == Mk(Sgn(a), NDivMod(Mag(a), Mag(b))[2])
(* Division rounding toward minus infinity; 0 <= ZMod(a, b) < b for b > 0. *)
ZFloor(a, b) == LET q == ZQuo(a, b) r == ZRem(a, b)
                IN  IF Sgn(r) # 0 /\ Sgn(r) # Sgn(b) THEN ZSub(q, Z(1)) ELSE q
ZMod(a, b) == ZSub(a, ZMul(b, ZFloor(a, b)))

RECURSIVE ZPow(_, _)
ZPow(x, n) == IF n = 0 THEN Z(1)
              ELSE LET h == ZPow(x, n \div 2) h2 == ZMul(h, h)
                   IN  IF n % 2 = 0 THEN h2 ELSE ZMul(h2, x)
ZPow2(n) == ZPow(Z(2), n)

(* x * 2^n, truncated toward zero when n is negative                       *)
ZShift(x, n) == IF n >= 0 THEN ZMul(x, ZPow2(n)) ELSE ZQuo(x, ZPow2(-n))

RECURSIVE ZGcd(_, _)
ZGcd(a, b) == IF Sgn(b) = 0 THEN ZAbs(a) ELSE ZGcd(b, ZRem(a, b))

(* number of binary digits of |x|                                          *)
RECURSIVE IntBits(_)
IntBits(n) == IF n = 0 THEN 0 ELSE 1 + IntBits(n \div 2)
ZBits(x) == IF Sgn(x) = 0 THEN 0 ELSE 8 * (Len(x) - 2) + IntBits(x[Len(x)])

(* the integer s with s*s <= x < (s+1)*(s+1), by bisection                 *)
RECURSIVE SqrtIn(_, _, _)
SqrtIn(x, lo, hi) ==
    IF ZLe(ZSub(hi, lo), Z(1)) THEN lo
    ELSE LET mid == ZQuo(ZAdd(lo, hi), Z(2))
         IN  IF ZLe(ZMul(mid, mid), x) THEN SqrtIn(x, mid, hi) ELSE SqrtIn(x, lo, mid)
ZSqrt(x) == SqrtIn(x, Z(0), ZPow2(ZBits(x) \div 2 + 1))

RECURSIVE ZProdFrom(_, _)
ZProdFrom(lo, hi) == IF lo > hi THEN Z(1)
                     ELSE IF lo = hi THEN Z(lo)
                     ELSE LET m == (lo + hi) \div 2
                          IN  ZMul(ZProdFrom(lo, m), ZProdFrom(m + 1, hi))
ZFact(n) == ZProdFrom(1, n)

(* value of a digit sequence (most significant first) in a given radix     *)
RECURSIVE ZOfDigits(_, _)
ZOfDigits(ds, radix) ==
    IF ds = <<>> THEN ZZero
    ELSE ZAdd(ZMul(ZOfDigits(SubSeq(ds, 1, Len(ds) - 1), radix), Z(radix)), Z(ds[Len(ds)]))
(* the digits of x >= 0 in that radix, most significant first; 0 is <<0>>  *)
RECURSIVE DigitsAt(_, _)
DigitsAt(x, radix) == IF Sgn(x) = 0 THEN <<>>
                      ELSE Append(DigitsAt(ZQuo(x, Z(radix)), radix), ToInt(ZRem(x, Z(radix))))
ZDigits(x, radix) == IF Sgn(x) = 0 THEN <<0>> ELSE DigitsAt(x, radix)

(* value of a little-endian byte string                                    *)
ZOfBytes(bs) == Mk(1, NNorm(bs))

(* primality by trial division; for values TLC can hold                    *)
ZIsPrime(x) == LET n == ToInt(x)
               IN  n > 1 /\ \A d \in 2..n : (d * d <= n => n % d # 0)
=============================================================================
