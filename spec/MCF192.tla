------------------------------- MODULE MCF192 -------------------------------
(* F192: histories over registers from boundary mantissas and exponents;    *)
(* a step's result is the correctly rounded one                             *)
EXTENDS Calculator

CONSTANTS Mants, ExpsX, ExpsY, Signs
One127 == ZSub(ZPow2(128), ZOne)
FewMants == {FHalf, ZAdd(FHalf, ZOne), One127, ZQuo(ZMul(ZPow2(128), Z(2)), Z(3))}
SomeMants == FewMants \cup {ZSub(One127, ZOne), ZAdd(FHalf, ZPow2(64)), ZMul(ZSub(ZPow2(64), ZOne), ZPow2(64)), ZSub(ZPow2(128), ZPow2(63)), ZAdd(FHalf, ZPow2(126))}
EXX == {0, 1, -1, -64, -65, -127, -128, -129}
EXY == {-127, -192, -255, -63}
OnlyY == {-127}
EXMore == EXX \cup {-126, -130, -63, -190, -191, -200, 64, 100, -300}
EYMore == EXY \cup {0, -128, -126, -254, -256, -140}
One == {1}
Both == {1, -1}
Fs(ms, es) == {FZero} \cup {<<"f", ZMul(Z(s), m), Z(e)>> : s \in Signs, m \in ms, e \in es}
OfX == Fs(Mants, ExpsX)
OfY == Fs(FewMants, ExpsY)
OfZ == {<<"f", ZAdd(FHalf, ZPow2(127 - 2)), Z(-126)>>}       \* 2.5

(* p/q * 2^e correctly rounded (ties to even), |p/q| > 0; e a Z *)
FRounded(p, q, e) ==
    LET s == 130 - (ZBits(p) - ZBits(q))                      \* |p| 2^s / q has 129 to 131 digits
        n == ZQuo(ZShift(ZAbs(p), IF s > 0 THEN s ELSE 0), ZMul(q, ZPow2(IF s < 0 THEN -s ELSE 0)))
        exact == ZMul(n, ZMul(q, ZPow2(IF s < 0 THEN -s ELSE 0))) = ZShift(ZAbs(p), IF s > 0 THEN s ELSE 0)
        d == ZBits(n) - 128
        m == ZShift(n, -d)
        r == ZSub(n, ZShift(m, d))
        half == ZPow2(d - 1)
        up == ZLt(half, r) \/ (r = half /\ (~exact \/ ZRem(m, ZTwo) = ZOne))
        m1 == IF up THEN ZAdd(m, ZOne) ELSE m
        c == ZBits(m1) - 128
    IN  <<"f", ZMul(Z(Sgn(p)), ZShift(m1, -c)), ZAdd(e, Z(d + c - s))>>
FOfR(r) == IF RIsZero(r) THEN FZero ELSE FRounded(r[2], r[3], ZZero)
PickF(f, n, a, c) ==
    CASE n = "add" -> Ok(FOfR(RAdd(FR(a[1]), FR(a[2]))))
      [] n = "sub" -> Ok(FOfR(RSub(FR(a[1]), FR(a[2]))))
      [] n = "mul" -> Ok(FOfR(RMul(FR(a[1]), FR(a[2]))))
      [] n = "div" -> IF FSgn(a[2]) = 0 THEN Panic ELSE Ok(FOfR(RDiv(FR(a[1]), FR(a[2]))))
      [] n = "sqrt" -> Ok(IF FSgn(a[1]) <= 0 THEN FZero ELSE LET s == ZSqrt(ZShift(FP(a[1]), 400)) t == ZSqrt(ZShift(FQ(a[1]), 400)) IN FOfR(R(s, t)))
      [] n = "neg" -> Ok(FNegate(a[1]))
      [] n = "shl" -> FScale(a[1], c[1][2])
      [] n = "shr" -> FScale(a[1], ZNeg(c[1][2]))
      [] n = "step_epsilon" -> FStep(a[1])
      [] n = "frac" -> Ok(FFrac(a[1]))
      [] n = "floor" -> Ok(FRoundBy(a[1], RFloor))
      [] n = "mul_i32" -> Ok(FOfR(RMul(FR(a[1]), RInt(c[1][2]))))
AskF(n, a, c) == Ask("f", n, a, c)
MovesF == {To("f", "add", <<1, 2>>, <<>>, 1), To("f", "sub", <<1, 2>>, <<>>, 1), To("f", "mul", <<1, 2>>, <<>>, 1), To("f", "div", <<1, 2>>, <<>>, 1),
           To("f", "frac", <<1>>, <<>>, 1)}
MovesMore == MovesF \cup {To("f", "floor", <<1>>, <<>>, 1), To("f", "sqrt", <<1>>, <<>>, 1), To("f", "mul_i32", <<1>>, <<N(Z(-10))>>, 1), To("f", "neg", <<1>>, <<>>, 1),
           To("f", "shl", <<1>>, <<N(Z(3))>>, 1), To("f", "sub", <<2, 1>>, <<>>, 2)}
FCmps == <<"cmp", "partial_cmp", "op_lt", "op_gt", "op_eq", "op_ne", "op_le", "op_ge", "hash_eq">>
Binary == <<"add", "sub", "mul", "div">>
LooksArith == Flat([k \in 1..4 |-> <<AskF(Binary[k], <<1, 2>>, <<>>), AskF(Binary[k], <<2, 1>>, <<>>), AskF(Binary[k], <<1, 1>>, <<>>)>>])
              \o <<AskF("mul_i32", <<1>>, <<N(Z(-3))>>), AskF("mul_i32", <<1>>, <<N(ZNeg(H32))>>), AskF("div_i32", <<1>>, <<N(Z(10))>>), AskF("div_i32", <<1>>, <<N(ZNeg(H32))>>),
                   AskF("abs", <<1>>, <<>>), AskF("neg", <<1>>, <<>>), AskF("shl", <<1>>, <<N(Z(7))>>), AskF("shr", <<1>>, <<N(Z(7))>>), AskF("step_epsilon", <<1>>, <<>>)>>
              \o Flat([k \in 1..Len(FCmps) |-> <<AskF(FCmps[k], <<1, 2>>, <<>>), AskF(FCmps[k], <<2, 1>>, <<>>), AskF(FCmps[k], <<1, 1>>, <<>>)>>])
              \o <<AskF("min", <<1, 2>>, <<>>), AskF("max", <<1, 2>>, <<>>), AskF("sort", <<1, 2, 3, 2>>, <<>>)>>
Rounds == <<"floor", "ceil", "round", "truncate", "frac", "is_integer">>
LooksRound == [k \in 1..6 |-> AskF(Rounds[k], <<1>>, <<>>)]
              \o <<AskF("sqrt", <<1>>, <<>>), AskF("ilog2", <<1>>, <<>>), AskF("log2", <<1>>, <<>>), AskF("ln", <<1>>, <<>>), AskF("atan", <<1>>, <<>>), AskF("asin", <<1>>, <<>>), AskF("acos", <<1>>, <<>>)>>
(* calls that make sense for numbers of ordinary size only *)
MoreRound(r) == IF FSgn(r[1]) = 0 \/ ZLt(r[1][3], Z(-100))
                THEN <<AskF("sin", <<1>>, <<>>), AskF("cos", <<1>>, <<>>), AskF("tan", <<1>>, <<>>), AskF("pow2", <<1>>, <<>>), AskF("powi", <<1>>, <<N(Z(5))>>),
                       AskF("powi", <<1>>, <<N(IF FSgn(r[1]) = 0 THEN Z(2) ELSE Z(-2))>>), AskF("pow", <<3, 1>>, <<>>)>>
                ELSE <<>>
Machine == <<"as_u8", "as_u16", "as_u32", "as_u64", "as_u128", "as_i8", "as_i16", "as_i32", "as_i64", "as_i128">>
LooksConv == [k \in 1..Len(Machine) |-> AskF(Machine[k], <<1>>, <<>>)] \o <<AskF("to_r", <<1>>, <<>>), AskF("to_f32", <<1>>, <<>>), AskF("to_f64", <<1>>, <<>>), AskF("approx", <<1>>, <<>>), AskF("display", <<1>>, <<>>), AskF("into_code13", <<1>>, <<>>)>>
MoreConv(r) == <<>>

(* a unit away from v, k times *)
Off(v, k) == FRounded(ZAdd(v[2], Z(k)), ZOne, v[3])
x == regs[1]
y == regs[2]
acc(n, a, v) == Allowed("f", n, a, <<>>, Ok(v))
LawsArith ==
    \A n \in {"add", "sub", "mul", "div"} :
      LET o == PickF("f", n, <<x, y>>, <<>>)
      IN  /\ Allowed("f", n, <<x, y>>, <<>>, o)
          /\ o = Panic => ~acc(n, <<x, y>>, FZero)
          /\ (o[1] = "ok" /\ FSgn(o[2]) # 0) => /\ ~acc(n, <<x, y>>, Off(o[2], 64)) /\ ~acc(n, <<x, y>>, Off(o[2], -64)) /\ ~acc(n, <<x, y>>, FNegate(o[2])) /\ ~acc(n, <<x, y>>, FZero)
                                                /\ ~Allowed("f", n, <<x, y>>, <<>>, Panic)
          /\ n \in {"add", "mul"} => o = PickF("f", n, <<y, x>>, <<>>)
LawsOrder == /\ FCmp(x, y) = RCmp(FR(x), FR(y)) /\ FCmp(y, x) = -FCmp(x, y)
             /\ FSgn(x) # 0 => FCmp(x, FStep(x)[2]) = -FSgn(x)
             /\ FR(FOfR(FR(x))) = FR(x) /\ FOfR(FR(x)) = x
LawsRound ==
    LET r == FR(x)
        of(n) == FR(CHOOSE v \in {FOfZ(RFloor(r)), FOfZ(RCeil(r))} : acc(n, <<x>>, v))
        big == Sgn(x[3]) >= 0
    IN  /\ ~big => /\ RLe(of("floor"), r) /\ RLt(r, RAdd(of("floor"), ROne))
                   /\ RLe(r, of("ceil")) /\ RLt(RSub(of("ceil"), ROne), r)
                   /\ RLe(RAbs(of("truncate")), RAbs(r)) /\ RLt(RAbs(RSub(r, of("truncate"))), ROne)
                   /\ RLe(RAbs(RSub(r, of("round"))), Half)
                   /\ acc("frac", <<x>>, FOfR(RSub(r, of("truncate"))))
        /\ Allowed("f", "is_integer", <<x>>, <<>>, Ok(B(r[3] = ZOne)))
        /\ FSgn(x) > 0 => LET s == PickF("f", "sqrt", <<x>>, <<>>)[2] IN acc("sqrt", <<x>>, s) /\ ~acc("sqrt", <<x>>, Off(s, 64)) /\ ~acc("sqrt", <<x>>, Off(s, -64))
LawsConv ==
    LET r == FR(x) IN
    /\ acc("to_r", <<x>>, r)
    /\ acc("of_r", <<r>>, x) /\ (FSgn(x) # 0 => ~acc("of_r", <<r>>, Off(x, 4)) /\ ~acc("of_r", <<r>>, FNegate(x)))
    /\ \A n \in {"as_i64", "as_u32"} : LET o == ToMachine(n, RTrunc(r)) IN Sgn(x[3]) <= 0 => Allowed("f", n, <<x>>, <<>>, o)
=============================================================================
