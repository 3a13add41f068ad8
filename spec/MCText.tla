------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Numerals typed one character at a time: every text of at most MaxLen    *)
(* characters over the alphabet.  In every state the grammar's laws are    *)
(* checked, and the text is given to the parsers of the real library.      *)
(***************************************************************************)
EXTENDS Laws, SessionIO, TLC, IOUtils

CONSTANTS Alphabet, MaxLen, Parsing      \* Parsing: families of the parsers tried
VARIABLE s
(* 0 1 9 _ - . e x a   /   0 7 f b o X E + - blank *)
Main == {48, 49, 57, 95, 45, 46, 101, 120, 97}
Second == {48, 55, 102, 98, 111, 88, 69, 43, 45, 32}
FewChars == {48, 50, 95, 45, 46, 69}
AllFour == <<"u", "i", "r", "f">>
Ints == <<"u", "i">>
JustR == <<"r">>
JustF == <<"f">>
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s

Parser(f) == IF f = "f" THEN "from_str" ELSE "from_string"
Reads(f, t, o) == Allowed(f, Parser(f), <<>>, <<S(t)>>, o)
Refused(f, t) == Reads(f, t, Err)
Written == Emit(IOEnv.OUT, [k \in 1..Len(Parsing) |-> <<Parsing[k], Parser(Parsing[k]), 0, <<>>, <<S(s)>>, k>>])

(* integer numerals: a numeral is refused or means one number; the sign    *)
(* negates; underscores and further digits do what they say                *)
IntegerLaws ==
    IF UNumeralOK(s)
    THEN LET v == UNumeralValue(s)
             radix == IF Len(s) >= 3 /\ RadixOf(s[2]) > 0 THEN RadixOf(s[2]) ELSE 10
         IN  /\ Reads("u", s, OkU(v)) /\ ~Refused("u", s) /\ ~Reads("u", s, OkU(ZAdd(v, ZOne)))
             /\ Reads("i", s, OkI(v)) /\ ~Refused("i", s)
             /\ Reads("i", <<Minus>> \o s, OkI(ZNeg(v)))
             /\ Refused("u", <<Minus>> \o s) /\ Refused("i", <<Minus, Minus>> \o s)
             /\ Reads("r", s, Ok(RInt(v))) /\ ~Refused("r", s)
             /\ Reads("u", Append(s, Under), OkU(v))
             /\ s[1] # Zero \/ radix # 10 => Reads("u", Append(s, 49), OkU(ZAdd(ZMul(v, Z(radix)), ZOne)))
             /\ Refused("u", Append(s, 43)) /\ Refused("i", Append(s, Minus))
             /\ Reads("u", IntText(v, 10, FALSE), OkU(v)) /\ Reads("u", IntText(v, 16, TRUE), OkU(v))
             /\ Sgn(v) >= 0
    ELSE UNumeralLoose(s) \/ (Refused("u", s) /\ ~Reads("u", s, OkU(ZZero)) /\ ~Reads("u", s, OkU(ZOne)))
(* a rational numeral: the sign negates, zeros after the point do not      *)
(* matter, an exponent scales                                              *)
RationalLaws ==
    (RNumeralOK(s) /\ ~IsHexLike(s) /\ ZLt(ZAbs(RExponent(RBody(s))), Z(9999))) =>
        LET v == RNumeralValue(s)
            sci == FindE(s, 1) <= Len(s)
        IN  /\ Reads("r", s, Ok(v)) /\ ~Refused("r", s)
            /\ s[1] # Minus => Reads("r", <<Minus>> \o s, Ok(RNeg(v)))
            /\ s[1] = Minus => Reads("r", From(s, 2), Ok(RNeg(v)))
            /\ (HasPoint(s) /\ ~sci) => /\ Reads("r", Append(s, Zero), Ok(v))
                                        /\ Reads("r", s \o <<CharE, 50>>, Ok(RMul(v, RInt(Z(100)))))
                                        /\ Reads("r", s \o <<69, Minus, 51>>, Ok(RDiv(v, RInt(Z(1000)))))
            /\ ~HasPoint(s) /\ ~sci => Reads("r", s \o <<Dot, 53>>, Ok(RAdd(v, IF s[1] = Minus THEN RNeg(Half) ELSE Half)))
            /\ Refused("r", s \o <<Dot, Dot>>) /\ Refused("r", s \o <<43>>)
(* the float numeral is near the rational one, whenever both are numerals  *)
FloatLaws ==
    LET b == RBody(s) IN
    (RNumeralOK(s) /\ ~IsHexLike(s) /\ FDecimalOK(b) /\ ZLt(ZAbs(RExponent(b)), Z(9999))) =>
        LET v == RNumeralValue(s)
            near(r) == IF RIsZero(r) THEN FZero
                       ELSE LET k == ZBits(r[3]) - ZBits(r[2]) + 128
                                q == IF k >= 0 THEN ZQuo(ZShift(ZAbs(r[2]), k), r[3]) ELSE ZQuo(ZAbs(r[2]), ZShift(r[3], -k))
                                j == ZBits(q) - 128
                                m == ZShift(q, -j)
                            IN  <<"f", IF Sgn(r[2]) < 0 THEN ZNeg(m) ELSE m, Z(j - k)>>
        IN  /\ Reads("f", s, Ok(near(v)))
            /\ ~Refused("f", s)
            /\ ~RIsZero(v) => ~Reads("f", s, Ok(near(RMul(v, RAdd(ROne, RPow2(-100)))))) /\ ~Reads("f", s, Ok(FNegate(near(v))))
=============================================================================
