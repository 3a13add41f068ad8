------------------------------- MODULE HText -------------------------------
(***************************************************************************)
(* Text: numerals as byte sequences, their grammar and their value.        *)
(***************************************************************************)
EXTENDS HValues

DigitOf(b) == IF b >= 48 /\ b <= 57 THEN b - 48            \* 0-9
              ELSE IF b >= 97 /\ b <= 122 THEN b - 87      \* a-z
              ELSE IF b >= 65 /\ b <= 90 THEN b - 55       \* A-Z
              ELSE 99
CharOf(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Lower(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b

Zero == 48  Dot == 46  Minus == 45  Plus == 43  Under == 95  Slash == 47
CharE == 101  CharX == 120  CharO == 111  CharB == 98

IsDec(b) == b >= 48 /\ b <= 57
From(s, k) == SubSeq(s, k, Len(s))
NoUnder(s) == SelectSeq(s, LAMBDA b : b # Under)
Digits(s) == [k \in 1..Len(s) |-> DigitOf(s[k])]
AllIn(s, radix) == \A k \in 1..Len(s) : DigitOf(s[k]) < radix
(* the first position >= k of s holding the byte b, or Len(s) + 1          *)
RECURSIVE Find(_, _, _)
Find(s, k, b) == IF k > Len(s) THEN k ELSE IF s[k] = b THEN k ELSE Find(s, k + 1, b)
Split(s, k) == <<SubSeq(s, 1, k - 1), From(s, k + 1)>>

RadixOf(b) == CASE Lower(b) = CharX -> 16 [] Lower(b) = CharO -> 8 [] Lower(b) = CharB -> 2 [] OTHER -> 0

---------------------------------------------------------------------------
(* Unsigned integer numerals.                                              *)
(*     decimal:  0 _*   |   [1-9] [0-9_]*                                  *)
(*     others:   0x [0-9a-fA-F_]+   0o [0-7_]+   0b [01_]+                 *)
(*               (either case of the letter, at least one digit)           *)
UNumeralOK(s) ==
    \/ /\ Len(s) >= 1
       /\ s[1] = Zero
       /\ \A k \in 2..Len(s) : s[k] = Under
    \/ /\ Len(s) >= 1
       /\ s[1] \in 49..57
       /\ \A k \in 2..Len(s) : IsDec(s[k]) \/ s[k] = Under
    \/ /\ Len(s) >= 3
       /\ s[1] = Zero
       /\ RadixOf(s[2]) > 0
       /\ AllIn(NoUnder(From(s, 3)), RadixOf(s[2]))
       /\ NoUnder(From(s, 3)) # <<>>
UNumeralValue(s) ==
    IF Len(s) >= 3 /\ RadixOf(s[2]) > 0
    THEN ZOfDigits(Digits(NoUnder(From(s, 3))), RadixOf(s[2]))
    ELSE ZOfDigits(Digits(NoUnder(s)), 10)

(* The documentation does not say whether underscores may stand between    *)
(* the 0 and the letter of a prefix; either answer is allowed there.       *)
UNumeralLoose(s) ==
    /\ Len(s) >= 2 /\ s[1] = Zero /\ s[2] = Under
    /\ UNumeralOK(NoUnder(s))

UParse(s, wrap(_), o) ==
    IF UNumeralOK(s) THEN o = Ok(wrap(UNumeralValue(s)))
    ELSE IF UNumeralLoose(s) THEN o \in {Err, Ok(wrap(UNumeralValue(NoUnder(s))))}
    ELSE o = Err

IParse(s, o) == IF Len(s) >= 1 /\ s[1] = Minus
                THEN UParse(From(s, 2), LAMBDA z : I(ZNeg(z)), o)
                ELSE UParse(s, LAMBDA z : I(z), o)

---------------------------------------------------------------------------
(* The canonical numeral of an integer.                                    *)
UDigitsText(z, radix) == LET d == ZDigits(z, radix) IN [k \in 1..Len(d) |-> CharOf(d[k])]
Prefix(radix) == CASE radix = 16 -> <<48, 120>> [] radix = 8 -> <<48, 111>> [] radix = 2 -> <<48, 98>> [] OTHER -> <<>>
SignText(z) == IF Sgn(z) < 0 THEN <<Minus>> ELSE <<>>
IntText(z, radix, prefixed) ==
    SignText(z) \o (IF prefixed THEN Prefix(radix) ELSE <<>>) \o UDigitsText(ZAbs(z), radix)

---------------------------------------------------------------------------
(* Decimal notation of rationals: [-] digits [. digits] [e [-] digits]     *)
(*                                                                         *)
(* A decimal numeral is read as  <<sign, intPart, fracPart, exponent>>.    *)
RPow10(k) == IF k >= 0 THEN RInt(ZPow(ZTen, k)) ELSE <<"r", ZOne, ZPow(ZTen, -k)>>

DecOf(ip, fp, e) ==     \* value of ip.fp * 10^e, e a Z
    LET z == ZOfDigits(Digits(ip \o fp), 10)
    IN  IF Sgn(z) = 0 THEN RZero ELSE RMul(RInt(z), RPow10(ToInt(e) - Len(fp)))

NonEmptyDec(s) == Len(s) >= 1 /\ \A k \in 1..Len(s) : IsDec(s[k])
AllDec(s) == \A k \in 1..Len(s) : IsDec(s[k])

(* Output in plain or scientific notation, without separators.             *)
OutBody(s) == IF Len(s) >= 1 /\ s[1] = Minus THEN From(s, 2) ELSE s
OutE(s) == Find(s, 1, CharE)
OutMant(s) == SubSeq(s, 1, OutE(s) - 1)
OutExp(s) == From(s, OutE(s) + 1)
ExpOK(x) == LET b == IF Len(x) >= 1 /\ x[1] = Minus THEN From(x, 2) ELSE x
            IN  NonEmptyDec(b) /\ Len(b) <= 7 /\ (b[1] = Zero => b = <<Zero>> /\ x = b)
ExpVal(x) == IF x[1] = Minus THEN -ToInt(ZOfDigits(Digits(From(x, 2)), 10)) ELSE ToInt(ZOfDigits(Digits(x), 10))
MantDot(m) == Find(m, 1, Dot)
MantOK(m) == LET k == MantDot(m)
             IN  /\ NonEmptyDec(SubSeq(m, 1, k - 1))
                 /\ (k > 2 => m[1] # Zero)                 \* no redundant leading zero
                 /\ k <= Len(m) => NonEmptyDec(From(m, k + 1))
OutputOK(s) == LET b == OutBody(s)
               IN  /\ MantOK(OutMant(b))
                   /\ OutE(b) <= Len(b) => ExpOK(OutExp(b))
OutputExp(s) == LET b == OutBody(s) IN IF OutE(b) <= Len(b) THEN ExpVal(OutExp(b)) ELSE 0
OutputFracLen(s) == LET m == OutMant(OutBody(s)) k == MantDot(m) IN IF k <= Len(m) THEN Len(m) - k ELSE 0
OutputValue(s) ==
    LET m == OutMant(OutBody(s))
        k == MantDot(m)
        v == DecOf(SubSeq(m, 1, k - 1), IF k <= Len(m) THEN From(m, k + 1) ELSE <<>>, Z(OutputExp(s)))
    IN  IF s[1] = Minus THEN RNeg(v) ELSE v
(* exponent (power of ten) of the last digit printed *)
OutputUlp(s) == OutputExp(s) - OutputFracLen(s)
=============================================================================
