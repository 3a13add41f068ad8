------------------------------- MODULE MCPoly -------------------------------
(* Polynomial: all polynomials with few coefficients, and histories of calls on them *)
EXTENDS Calculator

CONSTANTS Coeffs, MaxCoeffs, Points
Tern == {RInt(Z(k)) : k \in {-1, 0, 1, 2}}
Fracs == {RZero, ROne, R(ZOne, ZTwo), R(Z(-2), Z(3)), R(Z(-7), ZOne)}
FewPoints == {RZero, ROne, RInt(Z(-1)), R(Z(3), ZTwo)}
OfX == {Poly(s) : s \in UNION {[1..n -> Coeffs] : n \in 1..MaxCoeffs}}
OfY == Points
OfZ == {Poly(<<RInt(ZTwo), ROne>>)}

PickP(f, n, a, c) ==
    CASE n = "mul_k" -> Ok(PScale(a[1], a[2]))
      [] n = "mul_k_i32" -> Ok(PScale(a[1], RInt(c[1][2])))
      [] n = "differentiate" -> Ok(PDiff(a[1]))
      [] n = "calc" -> Ok(PEval(a[1], a[2]))
AskP(n, a, c) == Ask("p", n, a, c)
MovesP == {In("p", "differentiate", <<1>>, <<>>), In("p", "mul_k", <<1, 2>>, <<>>), In("p", "mul_k_i32", <<1>>, <<N(Z(-3))>>), To("p", "calc", <<1, 2>>, <<>>, 2)}
LooksP == <<AskP("to_vec", <<1>>, <<>>), AskP("differentiate", <<1>>, <<>>), In("p", "differentiate", <<1>>, <<>>), AskP("calc", <<1, 2>>, <<>>), AskP("newton", <<1, 2>>, <<>>),
            AskP("newton_with", <<1, 2, 3>>, <<>>), AskP("mul_k", <<1, 2>>, <<>>), In("p", "mul_k", <<1, 2>>, <<>>), AskP("mul_k_i32", <<1>>, <<N(ZZero)>>), AskP("mul_k_i32", <<1>>, <<N(Z(5))>>),
            AskP("ratio_string", <<1>>, <<>>), AskP("approx", <<1>>, <<N(Z(9))>>), AskP("eq", <<1, 3>>, <<>>), AskP("eq", <<1, 1>>, <<>>),
            AskP("to_vec_f32", <<1>>, <<>>), AskP("to_vec_f64", <<1>>, <<>>)>>
(* points of the polynomial itself, and what interpolates them *)
At5(p) == [k \in 1..5 |-> LET x == <<RZero, ROne, RInt(Z(-1)), R(ZOne, ZTwo), RInt(Z(3))>>[k] IN <<x, PEval(p, x)>>]
Pairs(ps, n) == L([k \in 1..n |-> L(ps[k])])
Interpolations(r) ==
    LET ps == At5(r[1]) d == PDiff(r[1]) IN
    [n \in 1..5 |-> AskP("from_points", <<>>, <<Pairs(ps, n)>>)]
    \o <<AskP("from_points", <<>>, <<L(<<L(ps[1]), L(ps[2]), L(ps[1])>>)>>),
         AskP("linear", <<>>, <<L(<<ps[2][1], ps[4][1], ps[2][2], ps[4][2]>>)>>),
         AskP("quadratic", <<>>, <<L(<<ps[2][1], ps[4][1], ps[5][1], ps[2][2], ps[4][2], ps[5][2]>>)>>),
         AskP("cubic", <<>>, <<L(<<ps[3][1], ps[5][1], ps[3][2], ps[5][2], PEval(d, ps[3][1]), PEval(d, ps[5][1])>>)>>)>>

RECURSIVE Horner(_, _, _)
Horner(s, x, acc) == IF s = <<>> THEN acc ELSE Horner(Tail(s), x, RAdd(RMul(acc, x), s[1]))
ok(n, a, c, v) == Allowed("p", n, a, c, Ok(v)) /\ ~Allowed("p", n, a, c, Panic)
AllCanonicalP == Canonical(regs[1])
LawsP ==
    LET p == regs[1] x == regs[2] q == regs[3] d == PDiff(p) IN
    /\ PEval(p, x) = Horner(p[2], x, RZero)
    /\ ok("calc", <<p, x>>, <<>>, Horner(p[2], x, RZero))
    /\ PDiff(PScale(p, x)) = PScale(d, x)
    /\ Deg(d) = (IF Deg(p) = 0 THEN 0 ELSE Deg(p) - 1)
    \* a polynomial of degree < 5 is determined by five points, and not by fewer
    /\ Deg(p) < 5 => /\ ok("from_points", <<>>, <<Pairs(At5(p), 5)>>, p)
                     /\ p # q => ~Allowed("p", "from_points", <<>>, <<Pairs(At5(p), 5)>>, Ok(q))
    /\ Deg(p) <= 1 => ok("linear", <<>>, <<Interpolations(regs)[7][5][1]>>, p)
    /\ Deg(p) <= 2 => ok("quadratic", <<>>, <<Interpolations(regs)[8][5][1]>>, p)
    /\ Deg(p) <= 3 => ok("cubic", <<>>, <<Interpolations(regs)[9][5][1]>>, p)
    \* p(x + h) - p(x) = h p'(x) up to h^2 times a bound: exact for degree 1
    /\ Deg(p) = 1 => RSub(PEval(p, RAdd(x, ROne)), PEval(p, x)) = PEval(d, x)
    \* one Newton step solves a linear equation
    /\ Deg(p) = 1 => LET r == RSub(x, RDiv(PEval(p, x), PEval(d, x))) IN RIsZero(PEval(p, r)) /\ ok("newton", <<p, x>>, <<>>, r)
    /\ Deg(p) = 0 => Allowed("p", "newton", <<p, x>>, <<>>, Panic)
=============================================================================
