------------------------------ MODULE MCFloat ------------------------------
(***************************************************************************)
(* IEEE-754 bit patterns: a walk over the patterns around the boundaries   *)
(* of the formats.  In every state the laws of the conversions are checked *)
(* and the pattern, the value, the midpoint to the next pattern and its    *)
(* surroundings go through the real conversions.                           *)
(***************************************************************************)
EXTENDS Laws, SessionIO, TLC, IOUtils

CONSTANTS Types, Exps32, Exps64, Walk
VARIABLES tn, z, left
vars == <<tn, z, left>>

T == IF tn = "f32" THEN F32 ELSE F64
TypeOf(n) == IF n = "f32" THEN F32 ELSE F64
Both == {"f32", "f64"}
Some32 == {0, 1, 2, 3, 24, 103, 104, 126, 127, 128, 149, 150, 151, 158, 159, 190, 191, 230, 252, 253, 254, 255}
Some64 == {0, 1, 2, 53, 871, 897, 970, 1022, 1023, 1024, 1054, 1055, 1074, 1075, 1076, 1086, 1087, 1150, 1151, 2044, 2045, 2046, 2047}
Every32 == 0..255
Every64 == {k * 7 : k \in 0..292} \cup 2040..2047 \cup 0..8
Fracs(w) == {ZZero, ZOne, ZTwo, ZPow2(w - 1), ZSub(ZPow2(w - 1), ZOne), ZSub(ZPow2(w), ZOne), ZSub(ZPow2(w), ZTwo),
             ZQuo(ZPow2(w), Z(3)), ZPow2(w - 8), ZAdd(ZPow2(w - 9), ZOne)}
Patterns(n) == LET t == TypeOf(n) IN
    {ZAdd(IF s = 1 THEN t.sign ELSE ZZero, ZAdd(ZMul(Z(e), ZPow2(t.w)), f)) : s \in {0, 1}, e \in (IF n = "f32" THEN Exps32 ELSE Exps64), f \in Fracs(t.w)}
Init == tn \in Types /\ z \in Patterns(tn) /\ left = Walk
Next == /\ left > 0 /\ left' = left - 1 /\ tn' = tn
        /\ z' = ZAdd(z, ZOne) /\ ZLt(z', ZMul(ZTwo, T.sign))
Spec == Init /\ [][Next]_vars

Op(p) == p \o tn
m == FlMag(T, z)
Finite == FlFinite(T, z)
WithSign(r) == IF FlNeg(T, z) THEN RNeg(r) ELSE r
v == FlValue(T, z)
up == WithSign(FlAbs(T, ZAdd(m, ZOne)))               \* away from zero
mid == RMul(RAdd(v, up), Half)
gap == RMul(RSub(up, v), RPow2(-200))
past == RAdd(mid, gap)
short == RSub(mid, gap)
Up(k) == ZAdd(z, Z(k))
Last == ZSub(ZMul(Z(T.emax), ZPow2(T.w)), ZOne)
To(x, p) == Allowed("r", Op("to_"), <<x>>, <<>>, Ok(N(p)))
ToErr(x) == Allowed("r", Op("to_"), <<x>>, <<>>, Err)
(* the converter answers p to x, and nothing near *)
Only(x, p) == To(x, p) /\ ~To(x, ZAdd(p, ZOne)) /\ (Sgn(FlMag(T, p)) # 0 => ~To(x, ZSub(p, ZOne)))

Laws ==
    IF ~Finite THEN \A n \in {"of_", "from_ieee_", "inspect_"} : Allowed("r", Op(n), <<>>, <<N(z)>>, Err) /\ ~Allowed("r", Op(n), <<>>, <<N(z)>>, Ok(RZero))
    ELSE /\ \A n \in {"of_", "from_ieee_"} : Answers("r", Op(n), <<>>, <<N(z)>>, v)
         /\ Only(v, z) /\ ~ToErr(v)
         /\ LET i == Inspect(T, z)[2][2] IN      \* sign, exponent and fraction give the value back
            Sgn(m) # 0 => v = WithSign(RMul(RAdd(ROne, R(i[3][2], ZPow2(T.w))), RPow2(ToInt(i[2][2])))) /\ i[1][2] = FlNeg(T, z)
         /\ RLt(RAbs(v), RAbs(up))               \* larger patterns are larger numbers
         /\ m # Last => /\ To(mid, z) /\ To(mid, Up(1)) /\ ~To(mid, Up(2)) /\ (Sgn(m) # 0 => ~To(mid, Up(-1)))
                        /\ Only(past, Up(1)) /\ Only(short, z) /\ ~ToErr(mid)
         /\ m = Last => ToErr(mid) /\ ToErr(up) /\ ToErr(past) /\ ~ToErr(v)
         /\ Answers("i", Op("of_"), <<>>, <<N(z)>>, I(RTrunc(v)))

Ld(x, k) == <<"", "ld", 0, <<>>, <<x>>, k>>
C(f, n, a, c, k) == <<f, Op(n), 0, a, c, k>>
Outs(k) == <<C("r", "to_", <<k>>, <<>>, 10 * k), C("r", "as_", <<k>>, <<>>, 10 * k + 1)>>
Written == Emit(IOEnv.OUT,
    <<C("r", "inspect_", <<>>, <<N(z)>>, 50), C("r", "of_", <<>>, <<N(z)>>, 51), C("r", "from_ieee_", <<>>, <<N(z)>>, 52),
      C("i", "of_", <<>>, <<N(z)>>, 53), C("u", "of_", <<>>, <<N(z)>>, 54), C("f", "of_", <<>>, <<N(z)>>, 55)>>
    \o (IF ~Finite THEN <<>>
        ELSE <<Ld(v, 1), Ld(mid, 2), Ld(past, 3), Ld(short, 4), Ld(I(RTrunc(v)), 6), Ld(U(ZAbs(RTrunc(v))), 7)>> \o Outs(1) \o Outs(2) \o Outs(3) \o Outs(4)
             \o <<C("r", "own_", <<1>>, <<>>, 60), C("i", "as_", <<6>>, <<>>, 61), C("u", "as_", <<7>>, <<>>, 62),
                  <<"r", IF tn = "f32" THEN "to_f64" ELSE "to_f32", 0, <<1>>, <<>>, 63>>, <<"f", "of_r", 0, <<1>>, <<>>, 64>>, <<"f", Op("to_"), 0, <<64>>, <<>>, 65>>>>))
=============================================================================
