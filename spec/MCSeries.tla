------------------------------ MODULE MCSeries ------------------------------
(***************************************************************************)
(* The approximation functions of Ratio: for every argument of a set and   *)
(* every number of terms, the specification accepts the real value and the *)
(* values within the bound that n terms leave over, refuses those outside, *)
(* and the bound shrinks as n grows; the real functions are called with    *)
(* the same arguments.                                                     *)
(***************************************************************************)
EXTENDS Laws, SessionIO, TLC, IOUtils

CONSTANTS Dens, Span, Terms, Extra
VARIABLES k, q, n
vars == <<k, q, n>>
p == IF k % 2 = 0 THEN k \div 2 ELSE -((k + 1) \div 2)
x == R(Z(p), Z(q))
Init == q \in Dens /\ k = 0 /\ n = 0
Next == \/ n' = n + 1 /\ n' <= Terms /\ UNCHANGED <<k, q>>
        \/ n = 0 /\ k' \in {2 * k + 1, 2 * k + 2} /\ k' <= 2 * Span * q /\ UNCHANGED <<q, n>>
Spec == Init /\ [][Next]_vars

P == 400
One == {"sqrt_iter", "cbrt_iter", "exp_iter", "ln_iter", "sin_iter", "cos_iter", "tan_iter", "asin_iter", "acos_iter", "atan_iter"}
Ok1(f, v) == Allowed("r", f, <<x>>, <<N(Z(n))>>, Ok(v))
Bounded == {"exp_iter", "ln_iter", "sin_iter", "cos_iter", "asin_iter", "acos_iter", "atan_iter"}
Err1(f, t) ==
    CASE f = "exp_iter" -> RMul(ExpRelErr(x, t), ExpSize(x)) [] f = "ln_iter" -> LnErr(x, t)
      [] f = "sin_iter" -> SinErr(x, t, 0) [] f = "cos_iter" -> SinErr(x, t, 1)
      [] f = "asin_iter" -> AsinErr(x, t) [] f = "acos_iter" -> RAdd(AsinErr(x, t), PiErr(t)) [] f = "atan_iter" -> AtanErr(x, t)
Fx1(f) ==
    CASE f = "exp_iter" -> ExpFx(x, P) [] f = "ln_iter" -> LnOf(x, P) [] f = "sin_iter" -> SinR(x[2], x[3], P) [] f = "cos_iter" -> CosR(x[2], x[3], P)
      [] f = "asin_iter" -> AsinR(x[2], x[3], P) [] f = "acos_iter" -> AcosR(x[2], x[3], P) [] f = "atan_iter" -> AtanR(x[2], x[3], P)
Laws == \A f \in Bounded :
    IF SeriesMustPanic(f, x, RZero) THEN Allowed("r", f, <<x>>, <<N(Z(n))>>, Panic) /\ ~Ok1(f, RZero)
    ELSE LET v == R(Fx1(f), ZPow2(P))
             b == Err1(f, n)
         IN  /\ Ok1(f, v)
             /\ Ok1(f, RAdd(v, RMul(b, RQ(9, 10)))) \/ f = "acos_iter"
             /\ LET far == RAdd(RMul(b, RQ(3, 2)), RPow2(-100)) IN ~Ok1(f, RAdd(v, far)) /\ ~Ok1(f, RSub(v, far))
             /\ ~Allowed("r", f, <<x>>, <<N(Z(n))>>, Panic)
             /\ n > 0 => RLe(b, Err1(f, n - 1))
Consts == n > 0 => \A f \in {"pi_iter", "ln2_iter", "e_iter"} :
    LET ok(v) == Allowed("r", f, <<>>, <<N(Z(n))>>, Ok(v))
        t == CASE f = "pi_iter" -> PiF(P) [] f = "ln2_iter" -> Ln2F(P) [] f = "e_iter" -> EF(P)
        v == R(t, ZPow2(P))
        b == CASE f = "pi_iter" -> PiErr(n) [] f = "ln2_iter" -> Ln2Err(n) [] f = "e_iter" -> EErr(n)
    IN  /\ ok(RSub(v, RPow2(-380)))
        /\ ~ok(RSub(v, RMul(b, RTwoR))) /\ ~ok(RAdd(v, RPow2(-120)))

Ld(v, j) == <<"", "ld", 0, <<>>, <<v>>, j>>
Call(f, a, j) == <<"r", f, 0, a, <<N(Z(n))>>, j>>
Written == Emit(IOEnv.OUT,
    <<Ld(x, 1), Ld(R(Z(3), Z(2)), 2), Ld(R(Z(7), Z(5)), 3),
      Call("sqrt_iter", <<1>>, 10), Call("cbrt_iter", <<1>>, 11), Call("exp_iter", <<1>>, 12), Call("ln_iter", <<1>>, 13), Call("sin_iter", <<1>>, 14),
      Call("cos_iter", <<1>>, 15), Call("tan_iter", <<1>>, 16), Call("asin_iter", <<1>>, 17), Call("acos_iter", <<1>>, 18), Call("atan_iter", <<1>>, 19)>>
    \o (IF n \in Extra THEN <<Call("log_iter", <<1, 2>>, 20), Call("log_iter", <<3, 1>>, 21), Call("pow_iter", <<1, 2>>, 22), Call("pow_iter", <<3, 1>>, 23)>> ELSE <<>>)
    \o (IF p = 0 THEN <<Call("pi_iter", <<>>, 30), Call("e_iter", <<>>, 31), Call("ln2_iter", <<>>, 32)>> ELSE <<>>))
=============================================================================
