------------------------------ MODULE MCFuncs ------------------------------
(***************************************************************************)
(* The functions on natural numbers: every n up to a limit, in every state *)
(* the laws that define the functions, and the real functions' answers.    *)
(***************************************************************************)
EXTENDS Laws, SessionIO, TLC, IOUtils

CONSTANTS Last, LastBig, Bases      \* LastBig: limit of factorial and fibonacci; Bases: further numbers base + n
VARIABLES base, n
vars == <<base, n>>
SomeBases == {ZZero, ZSub(ZPow2(16), Z(150)), ZMul(Z(65521), Z(65521)), ZSub(ZPow2(32), Z(150)), ZSub(ZPow2(33), Z(20))}
MoreBases == SomeBases \cup {ZSub(ZMul(Z(46337), Z(46349)), Z(150)), ZSub(ZMul(ZPow2(31), ZPow2(13)), Z(150)), ZMul(Z(65537), Z(65539)), ZPow2(40)}
Init == base \in Bases /\ n = 0
Next == base' = base /\ n' \in {2 * n + 1, 2 * n + 2} /\ n' <= Last
Spec == Init /\ [][Next]_vars

x == ZAdd(base, Z(n))
Small0 == base = ZZero
fact(k) == V("u", "factorial", <<>>, <<N(Z(k))>>)[2]
fib(k) == V("u", "fibonacci", <<>>, <<N(Z(k))>>)[2]
prime(z) == V("u", "is_prime", <<U(z)>>, <<>>)[2]
(* by definition *)
DividedBy(z, d) == Sgn(ZRem(z, Z(d))) = 0
RECURSIVE LeastDivisor(_, _)
LeastDivisor(z, d) == IF ZLt(z, ZMul(Z(d), Z(d))) THEN 0 ELSE IF DividedBy(z, d) THEN d ELSE LeastDivisor(z, d + 1)
Laws ==
    /\ (Small0 /\ n <= LastBig) =>
         /\ fact(n) = (IF n = 0 THEN ZOne ELSE ZMul(Z(n), fact(n - 1)))
         /\ fib(n) = (IF n < 2 THEN Z(n) ELSE ZAdd(fib(n - 1), fib(n - 2)))
         /\ n >= 1 => ZSub(ZMul(fib(n - 1), fib(n + 1)), ZMul(fib(n), fib(n))) = (IF n % 2 = 0 THEN ZOne ELSE Z(-1))
         /\ V("i", "factorial", <<>>, <<N(Z(n))>>) = I(fact(n)) /\ V("i", "fibonacci", <<>>, <<N(Z(n))>>) = I(fib(n))
    /\ Small0 => (prime(x) <=> (n >= 2 /\ LeastDivisor(x, 2) = 0))
    /\ ZLt(ZOne, x) =>      \* the factorisation is one list and no other
         LET one(l) == Allowed("u", "prime_factorial", <<U(x)>>, <<>>, Ok(L(l)))
         IN  /\ one(<<U(x)>>) <=> prime(x)
             /\ ~one(<<>>) /\ ~one(<<U(ZOne), U(x)>>) /\ ~one(<<U(x), U(x)>>)
             /\ Small0 => LET d == LeastDivisor(x, 2) IN d # 0 => LET q == U(ZQuo(x, Z(d))) IN one(<<U(Z(d)), q>>) <=> prime(q[2])

Ld(v, k) == <<"", "ld", 0, <<>>, <<v>>, k>>
Written == Emit(IOEnv.OUT,
    <<Ld(U(x), 1), Ld(I(x), 2), Ld(I(ZNeg(x)), 3),
      <<"u", "is_prime", 0, <<1>>, <<>>, 10>>, <<"u", "prime_factorial", 0, <<1>>, <<>>, 11>>, <<"i", "is_prime", 0, <<2>>, <<>>, 12>>,
      <<"i", "is_prime", 0, <<3>>, <<>>, 13>>, <<"i", "prime_factorial", 0, <<2>>, <<>>, 14>>, <<"u", "sqrt", 0, <<1>>, <<>>, 15>>, <<"u", "log2", 0, <<1>>, <<>>, 16>>>>
    \o (IF Small0 /\ n <= LastBig
        THEN <<<<"u", "factorial", 0, <<>>, <<N(Z(n))>>, 20>>, <<"u", "fibonacci", 0, <<>>, <<N(Z(n))>>, 21>>,
               <<"i", "factorial", 0, <<>>, <<N(Z(n))>>, 22>>, <<"i", "fibonacci", 0, <<>>, <<N(Z(n))>>, 23>>>>
        ELSE <<>>))
=============================================================================
