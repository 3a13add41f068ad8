-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The listed properties as laws of the specification: what must be true   *)
(* of every answer the specification allows, whatever the operands.  The   *)
(* models check them in every state they reach; they are stated through    *)
(* Allowed, the relation recorded calls are judged by, so a specification  *)
(* that judges wrongly (or refuses every answer) breaks a law.             *)
(***************************************************************************)
EXTENDS Hmath

Apply(f, n, a, c) ==
    CASE f = "u" -> UApply(n, a, c)
      [] f = "i" -> IApply(n, a, c)
      [] f = "r" -> RApply(n, a, c)
V(f, n, a, c) == Apply(f, n, a, c)[2]
OkOf(f, n, a, c) == Apply(f, n, a, c)[1] = "ok"
(* the operation answers v, and nothing else that could be mistaken for it *)
Answers(f, n, a, c, v) == Allowed(f, n, a, c, Ok(v)) /\ ~Allowed(f, n, a, c, Panic) /\ ~Allowed(f, n, a, c, Err)
Panics(f, n, a, c) == Allowed(f, n, a, c, Panic) /\ ~Allowed(f, n, a, c, Err)
Implies(p, q) == p => q

---------------------------------------------------------------------------
(* C04: abstract values are unique representations *)
CanonU(x) == x[1] = "u" /\ IsZ(x[2]) /\ Sgn(x[2]) >= 0
CanonI(x) == x[1] = "i" /\ IsZ(x[2])
CanonR(x) == x[1] = "r" /\ IsZ(x[2]) /\ IsZ(x[3]) /\ Sgn(x[3]) > 0 /\ ZGcd(x[2], x[3]) = ZOne
Canon(x) == CASE x[1] = "u" -> CanonU(x) [] x[1] = "i" -> CanonI(x) [] x[1] = "r" -> CanonR(x) [] OTHER -> TRUE

(* C01 *)
LawAddU(x, y) ==
    LET s == V("u", "add", <<x, y>>, <<>>)
        d == V("u", "abs_diff", <<x, y>>, <<>>)
    IN  /\ CanonU(s)
        /\ s = V("u", "add", <<y, x>>, <<>>)
        /\ Answers("u", "sub", <<s, y>>, <<>>, x)
        /\ Answers("u", "sub", <<s, x>>, <<>>, y)
        /\ ZLt(x[2], y[2]) <=> Panics("u", "sub", <<x, y>>, <<>>)
        /\ d = V("u", "abs_diff", <<y, x>>, <<>>)
        /\ V("u", "add", <<d, U(ZMin(x[2], y[2]))>>, <<>>) = U(ZMax(x[2], y[2]))
        /\ Answers("u", "sum", <<x, y>>, <<>>, s)
        /\ Answers("u", "sum", <<>>, <<>>, U(ZZero))
        /\ FitsUnsigned(y[2], 32) => /\ Answers("u", "add_u32", <<x>>, <<N(y[2])>>, s)
                                     /\ Answers("u", "abs_diff_u32", <<x>>, <<N(y[2])>>, d)
                                     /\ ZLt(x[2], y[2]) <=> Panics("u", "sub_u32", <<x>>, <<N(y[2])>>)

(* C02 *)
LawMulU(x, y) ==
    LET p == V("u", "mul", <<x, y>>, <<>>)
        x1 == V("u", "add_u32", <<x>>, <<N(ZOne)>>)
    IN  /\ CanonU(p)
        /\ p = V("u", "mul", <<y, x>>, <<>>)
        /\ Answers("u", "mul", <<x1, y>>, <<>>, V("u", "add", <<p, y>>, <<>>))
        /\ (Sgn(p[2]) = 0) <=> (Sgn(x[2]) = 0 \/ Sgn(y[2]) = 0)
        /\ Sgn(p[2]) # 0 => ZBits(p[2]) - ZBits(x[2]) - ZBits(y[2]) \in {-1, 0}
        /\ Answers("u", "pow_u32", <<x>>, <<N(ZZero)>>, U(ZOne))
        /\ Answers("u", "pow_u32", <<x>>, <<N(ZOne)>>, x)
        /\ Answers("u", "pow_u32", <<x>>, <<N(ZTwo)>>, V("u", "mul", <<x, x>>, <<>>))
        /\ \A k \in {0, 1, 31, 32, 33, 64} :
             /\ Answers("u", "mul_pow2", <<x>>, <<N(Z(k))>>, V("u", "mul", <<x, V("u", "pow2", <<>>, <<N(Z(k))>>)>>, <<>>))
             /\ Answers("u", "pow2", <<>>, <<N(Z(k))>>, V("u", "pow_u32", <<U(ZTwo)>>, <<N(Z(k))>>))
        /\ \A k \in 0..3 :
             /\ Answers("u", "shift_right", <<V("u", "shift_left", <<x>>, <<N(Z(k))>>)>>, <<N(Z(k))>>, x)
             /\ LET hi == V("u", "shift_right", <<x>>, <<N(Z(k))>>)
                    up == V("u", "shift_left", <<hi>>, <<N(Z(k))>>)
                IN  IF k <= LimbLen(x[2])
                    THEN Answers("u", "add", <<up, V("u", "slice_right", <<x>>, <<N(Z(k))>>)>>, <<>>, x)
                    ELSE Panics("u", "slice_right", <<x>>, <<N(Z(k))>>) /\ Sgn(hi[2]) = 0
        /\ Answers("u", "product", <<x, y>>, <<>>, p)
        /\ FitsUnsigned(y[2], 32) => Answers("u", "mul_u32", <<x>>, <<N(y[2])>>, p)

(* C03 *)
LawDivU(x, y) ==
    IF Sgn(y[2]) = 0 THEN Panics("u", "div", <<x, y>>, <<>>) /\ Panics("u", "rem", <<x, y>>, <<>>)
                          /\ Panics("u", "div_u32", <<x>>, <<N(ZZero)>>) /\ Panics("u", "rem_u32", <<x>>, <<N(ZZero)>>)
    ELSE LET q == V("u", "div", <<x, y>>, <<>>)
             r == V("u", "rem", <<x, y>>, <<>>)
         IN  /\ CanonU(q) /\ CanonU(r)
             /\ ZLt(r[2], y[2])
             /\ Answers("u", "add", <<V("u", "mul", <<q, y>>, <<>>), r>>, <<>>, x)
             /\ Answers("u", "div", <<V("u", "mul", <<x, y>>, <<>>), y>>, <<>>, x)
             /\ FitsUnsigned(y[2], 32) => Answers("u", "div_u32", <<x>>, <<N(y[2])>>, q) /\ Answers("u", "rem_u32", <<x>>, <<N(y[2])>>, r)

(* C06 *)
LawInt(x, y) ==
    LET s == V("i", "add", <<x, y>>, <<>>)
        d == V("i", "sub", <<x, y>>, <<>>)
        p == V("i", "mul", <<x, y>>, <<>>)
        neg(v) == V("i", "neg", <<v>>, <<>>)
    IN  /\ CanonI(s) /\ CanonI(d) /\ CanonI(p)
        /\ s = V("i", "add", <<y, x>>, <<>>)
        /\ Answers("i", "sub", <<s, y>>, <<>>, x)
        /\ d = neg(V("i", "sub", <<y, x>>, <<>>))
        /\ d = V("i", "add", <<x, neg(y)>>, <<>>)
        /\ neg(neg(x)) = x
        /\ p = neg(V("i", "mul", <<neg(x), y>>, <<>>))
        /\ Sgn(p[2]) = Sgn(x[2]) * Sgn(y[2])
        /\ V("i", "abs", <<x>>, <<>>) = (IF Sgn(x[2]) < 0 THEN neg(x) ELSE x)
        /\ (Sgn(x[2]) = 0) => neg(x) = x
        /\ IF Sgn(y[2]) = 0 THEN Panics("i", "div", <<x, y>>, <<>>) /\ Panics("i", "rem", <<x, y>>, <<>>)
           ELSE LET q == V("i", "div", <<x, y>>, <<>>)
                    r == V("i", "rem", <<x, y>>, <<>>)
                IN  /\ Answers("i", "add", <<V("i", "mul", <<q, y>>, <<>>), r>>, <<>>, x)
                    /\ ZLt(ZAbs(r[2]), ZAbs(y[2]))
                    /\ Sgn(r[2]) \in {0, Sgn(x[2])}
                    /\ Sgn(q[2]) \in {0, Sgn(x[2]) * Sgn(y[2])}
                    /\ V("i", "div", <<neg(x), y>>, <<>>) = neg(q)
                    /\ V("i", "rem", <<x, neg(y)>>, <<>>) = r
        /\ FitsSigned(y[2], 32) =>
             /\ Answers("i", "add_i32", <<x>>, <<N(y[2])>>, s)
             /\ Answers("i", "sub_i32", <<x>>, <<N(y[2])>>, d)
             /\ Answers("i", "mul_i32", <<x>>, <<N(y[2])>>, p)
             /\ Sgn(y[2]) # 0 => /\ Answers("i", "div_i32", <<x>>, <<N(y[2])>>, V("i", "div", <<x, y>>, <<>>))
                                 /\ Answers("i", "rem_i32", <<x>>, <<N(y[2])>>, V("i", "rem", <<x, y>>, <<>>))

(* C07: a total order, told alike by every relation *)
Says(f, n, x, y) == V(f, n, <<x, y>>, <<>>)[2]
LawOrder(f, x, y, z) ==
    LET c == Says(f, "cmp", x, y)
    IN  /\ c \in {-1, 0, 1}
        /\ Says(f, "cmp", y, x) = -c
        /\ (c = 0) <=> (x = y)
        /\ Says(f, "lt", x, y) <=> c = -1
        /\ Says(f, "gt", x, y) <=> c = 1
        /\ Says(f, "eq", x, y) <=> c = 0
        /\ Says(f, "neq", x, y) <=> c # 0
        /\ Says(f, "leq", x, y) <=> c # 1
        /\ Says(f, "geq", x, y) <=> c # -1
        /\ (Says(f, "leq", x, y) /\ Says(f, "leq", y, z)) => Says(f, "leq", x, z)
        /\ Says(f, "leq", V(f, "min", <<x, y>>, <<>>), V(f, "max", <<x, y>>, <<>>))
        /\ {V(f, "min", <<x, y>>, <<>>), V(f, "max", <<x, y>>, <<>>)} = {x, y}
        /\ f # "u" => /\ c = Sgn(V(f, "sub", <<x, y>>, <<>>)[2])
                      /\ Says(f, "cmp", V(f, "add", <<x, z>>, <<>>), V(f, "add", <<y, z>>, <<>>)) = c

(* C08 *)
LawRatio(x, y, z) ==
    LET add(a, b) == V("r", "add", <<a, b>>, <<>>)
        mul(a, b) == V("r", "mul", <<a, b>>, <<>>)
        neg(a) == V("r", "neg", <<a>>, <<>>)
    IN  /\ CanonR(add(x, y)) /\ CanonR(mul(x, y))
        /\ add(x, y) = add(y, x) /\ mul(x, y) = mul(y, x)
        /\ add(add(x, y), z) = add(x, add(y, z))
        /\ mul(mul(x, y), z) = mul(x, mul(y, z))
        /\ mul(x, add(y, z)) = add(mul(x, y), mul(x, z))
        /\ add(x, neg(x)) = RZero
        /\ Answers("r", "sub", <<x, y>>, <<>>, add(x, neg(y)))
        /\ IF RIsZero(y) THEN Panics("r", "div", <<x, y>>, <<>>) /\ Panics("r", "reci", <<y>>, <<>>)
           ELSE /\ Answers("r", "mul", <<V("r", "div", <<x, y>>, <<>>), y>>, <<>>, x)
                /\ mul(y, V("r", "reci", <<y>>, <<>>)) = ROne
                /\ Answers("r", "pow_i32", <<y>>, <<N(Z(-3))>>, V("r", "reci", <<mul(y, mul(y, y))>>, <<>>))
        /\ Answers("r", "from_dn", <<I(x[3]), I(x[2])>>, <<>>, x)
        /\ Answers("r", "from_dn", <<I(ZMul(Z(-6), x[3])), I(ZMul(Z(-6), x[2]))>>, <<>>, x)

(* C09 *)
LawRound(x) ==
    LET fl == V("r", "floor_bi", <<x>>, <<>>)[2]
        tr == V("r", "truncate_bi", <<x>>, <<>>)[2]
        ro == V("r", "round_bi", <<x>>, <<>>)[2]
        fr == V("r", "frac", <<x>>, <<>>)
        negx == RNeg(x)
    IN  /\ RLe(RInt(fl), x) /\ RLt(x, RInt(ZAdd(fl, ZOne)))
        /\ tr = (IF Sgn(x[2]) >= 0 THEN fl ELSE ZNeg(V("r", "floor_bi", <<negx>>, <<>>)[2]))
        /\ RAdd(RInt(tr), fr) = x
        /\ RLt(RAbs(fr), ROne)
        /\ Sgn(fr[2]) \in {0, Sgn(x[2])}
        /\ RLe(RAbs(RSub(x, RInt(ro))), Half)
        /\ (RAbs(fr) = Half) => ZAbs(ro) = ZAdd(ZAbs(tr), ZOne)
        /\ ro = ZNeg(V("r", "round_bi", <<negx>>, <<>>)[2])
        /\ V("r", "is_integer", <<x>>, <<>>) = B(fl = tr /\ RIsZero(fr))

(* C10 *)
LawMachine(f, x) ==
    LET t == IF x[1] = "r" THEN RTrunc(x) ELSE x[2] IN
    \A n \in ToUnsigned \cup ToSigned :
      LET o == ToMachine(n, t)
          w == MachineWidth(n)
      IN  /\ n \in ToUnsigned => (o # Err <=> (Sgn(t) >= 0 /\ ZLt(t, ZPow2(w))))
          /\ n \in ToSigned => (o # Err <=> (ZLe(ZNeg(ZPow2(w - 1)), t) /\ ZLt(t, ZPow2(w - 1))))
          /\ o # Err => o = OkN(t)

(* C11 *)
LawText(f, x) ==
    /\ \A n \in {"dec", "hexp", "octp", "binp"} :
         LET s == V(f, n, <<x>>, <<>>) IN Answers(f, "from_string", <<>>, <<s>>, x)
    /\ \A n \in {"hex", "oct", "bin"} :
         LET s == V(f, n, <<x>>, <<>>)[2]
             b == IF s[1] = Minus THEN From(s, 2) ELSE s
             r == CASE n = "hex" -> 16 [] n = "oct" -> 8 [] n = "bin" -> 2
         IN  /\ ZOfDigits(Digits(b), r) = ZAbs(x[2])
             /\ b[1] = Zero => b = <<Zero>>
             /\ (s[1] = Minus) <=> Sgn(x[2]) < 0

(* C15 *)
LawFuncs(x, y) ==
    LET s == V("u", "sqrt", <<x>>, <<>>)[2]
        g == V("u", "gcd", <<x, y>>, <<>>)[2]
        l == V("u", "log2", <<x>>, <<>>)[2]
    IN  /\ ZLe(ZMul(s, s), x[2]) /\ ZLt(x[2], ZMul(ZAdd(s, ZOne), ZAdd(s, ZOne)))
        /\ IF Sgn(x[2]) = 0 THEN g = y[2]
           ELSE /\ Sgn(ZRem(x[2], g)) = 0 /\ Sgn(ZRem(y[2], g)) = 0
                /\ ZGcd(ZQuo(x[2], g), ZQuo(y[2], g)) = ZOne
                /\ g = V("u", "gcd", <<y, x>>, <<>>)[2]
                /\ ZLe(ZPow2(ToInt(l)), x[2]) /\ ZLt(x[2], ZPow2(ToInt(l) + 1))
        /\ Allowed("u", "log2_accurate", <<x>>, <<>>, OkU(LET e == Log2Fix(x[2]) IN IF Sgn(x[2]) = 0 THEN ZZero ELSE IF e = <<>> THEN ZZero ELSE e))
=============================================================================
