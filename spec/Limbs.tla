------------------------------- MODULE Limbs -------------------------------
(***************************************************************************)
(* The algorithms on limbs, as step machines in a small base B.            *)
(*                                                                         *)
(* Hmath.tla says what an operation returns; this module says how the      *)
(* library gets there, one step per pass of a loop (or per recursion), with *)
(* the loop invariants.  TLC checks, for all operands of at most LenX and  *)
(* LenY digits, that the invariants hold, that machine words never         *)
(* overflow, that every run ends, and that the final state is the one the  *)
(* specification of the operation demands.  (In the library B is 2^32; the *)
(* algorithms do not depend on it, except that sqrt needs a square.)       *)
(*                                                                         *)
(* Every start state is also written out as a session for the real         *)
(* library: the operands with digit k replaced by the limb Limb[k + 1],    *)
(* Block times.                                                            *)
(***************************************************************************)
EXTENDS BigNum, Integers, Sequences, SessionIO, TLC, IOUtils

CONSTANTS B, LenX, LenY, Ops,
          RootB,        \* RootB^2 = B, when Ops has "sqrt"
          Parts,        \* 256 in the library: weights of the two quotient estimates
          Thres,        \* 64 in the library: shorter factors are multiplied digit by digit
          Limb,         \* limbs for the digits 0 .. B-1
          Block,        \* each of them this many times
          Every         \* write out one in this many start states

VARIABLES op, x, y,     \* the operands: digits, lowest first
          pc,
          d,            \* digits (or cells) of the result
          i, j, c,      \* loop counters, carry
          rest, quot,   \* division and roots: numbers
          stack         \* division: pending calls
vars == <<op, x, y, pc, d, i, j, c, rest, quot, stack>>

------------------------------------------------------------------------------
RECURSIVE NumOf(_)
NumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + B * NumOf(Tail(s))
Above(s, k) == IF k > Len(s) THEN 0 ELSE B ^ (k - 1) * NumOf(SubSeq(s, k, Len(s)))
Below(s, k) == NumOf(SubSeq(s, 1, k))
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[Len(s)] = 0 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
IsDigits(s) == Len(s) >= 1 /\ (\A k \in 1..Len(s) : s[k] \in 0..(B - 1)) /\ (Len(s) = 1 \/ s[Len(s)] # 0)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < B THEN <<n>> ELSE <<n % B>> \o DigitsOf(n \div B)
Length(n) == Len(DigitsOf(n))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
X == NumOf(x)
Y == NumOf(y)
Dig(s, k) == IF k <= Len(s) THEN s[k] ELSE 0

Numbers(n) == {DigitsOf(v) : v \in 0..(B ^ n - 1)}

Zeros(n) == [k \in 1..n |-> 0]
Init == /\ op \in Ops
        /\ x \in Numbers(LenX)
        /\ y \in (IF op \in {"sqrt"} THEN {<<0>>} ELSE Numbers(LenY))
        /\ pc = "start"
        /\ d = IF op \in {"add", "sub"} THEN x ELSE IF op = "mul" THEN Zeros(Len(x) + Len(y)) ELSE <<0>>
        /\ i = 1 /\ j = 1 /\ c = 0
        /\ rest = IF op \in {"div", "gcd"} THEN X ELSE 0
        /\ quot = IF op = "gcd" THEN Y ELSE 0
        /\ stack = <<>>

------------------------------------------------------------------------------
(* in-place addition: one pass over the common length, then the carry runs *)
(* into what is left of the longer operand                                 *)
AddDigit ==
    /\ op = "add" /\ pc = "start" /\ i <= Max2(Len(x), Len(y))
    /\ i <= Len(y) \/ c = 1
    /\ LET s == Dig(d, i) + Dig(y, i) + c
       IN  /\ d' = IF i <= Len(d) THEN [d EXCEPT ![i] = s % B] ELSE Append(d, s % B)
           /\ c' = s \div B
    /\ i' = i + 1
    /\ UNCHANGED <<op, x, y, pc, j, rest, quot, stack>>
AddEnd ==
    /\ op = "add" /\ pc = "start"
    /\ i > Max2(Len(x), Len(y)) \/ (i > Len(y) /\ c = 0)
    /\ d' = IF c = 1 THEN Append(d, 1) ELSE d
    /\ c' = 0
    /\ pc' = "done"
    /\ UNCHANGED <<op, x, y, i, j, rest, quot, stack>>
AddInv == op = "add" =>
    /\ NumOf(d) + c * B ^ (i - 1) + Above(y, i) = X + Y
    /\ c \in {0, 1}
    /\ pc = "done" => IsDigits(d) /\ NumOf(d) = X + Y

(* in-place subtraction: the borrow runs upwards; one that leaves the top  *)
(* digit means that the difference is negative                             *)
SubDigit ==
    /\ op = "sub" /\ pc = "start" /\ Len(y) <= Len(x) /\ i <= Len(x)
    /\ i <= Len(y) \/ c = 1
    /\ LET s == d[i] - Dig(y, i) - c
       IN  d' = [d EXCEPT ![i] = s % B] /\ c' = IF s < 0 THEN 1 ELSE 0
    /\ i' = i + 1
    /\ UNCHANGED <<op, x, y, pc, j, rest, quot, stack>>
SubEnd ==
    /\ op = "sub" /\ pc = "start"
    /\ \/ Len(y) > Len(x) /\ pc' = "panic" /\ d' = d
       \/ Len(y) <= Len(x) /\ i > Len(x) /\ c = 1 /\ pc' = "panic" /\ d' = d
       \/ Len(y) <= Len(x) /\ i > Len(y) /\ c = 0 /\ pc' = "done" /\ d' = Strip(d)
    /\ UNCHANGED <<op, x, y, i, j, c, rest, quot, stack>>
SubInv == op = "sub" =>
    /\ pc = "start" /\ Len(y) <= Len(x) => NumOf(d) - c * B ^ (i - 1) - Above(y, i) = X - Y
    /\ pc = "done" => X >= Y /\ IsDigits(d) /\ NumOf(d) = X - Y
    /\ pc = "panic" => X < Y

(* digit by digit multiplication with the carries put off to the end       *)
MulDigit ==
    /\ op = "mul" /\ pc = "start" /\ i <= Len(x)
    /\ LET m == x[i] * y[j]
       IN  d' = [d EXCEPT ![i + j - 1] = @ + (m % B), ![i + j] = @ + m \div B]
    /\ IF j < Len(y) THEN j' = j + 1 /\ i' = i ELSE j' = 1 /\ i' = i + 1
    /\ UNCHANGED <<op, x, y, pc, c, rest, quot, stack>>
MulCarry ==
    /\ op = "mul" /\ pc = "start" /\ i > Len(x)
    /\ IF j < Len(d) THEN /\ d' = [d EXCEPT ![j] = @ % B, ![j + 1] = @ + d[j] \div B]
                          /\ j' = j + 1 /\ pc' = pc
                     ELSE d' = Strip(d) /\ pc' = "done" /\ j' = j
    /\ UNCHANGED <<op, x, y, i, c, rest, quot, stack>>
MulInv == op = "mul" =>
    /\ NumOf(d) = IF i > Len(x) THEN X * Y ELSE Below(x, i - 1) * Y + x[i] * B ^ (i - 1) * Below(y, j - 1)
    (* what a cell holds: 64-bit cells do for 2^31 limbs *)
    /\ \A k \in 1..Len(d) : d[k] <= 2 * Min2(Len(x), Len(y)) * (B - 1) + 2 * Min2(Len(x), Len(y))
    /\ pc = "done" => IsDigits(d) /\ NumOf(d) = X * Y

(* Karatsuba's recursion *)
Right(s, m) == Strip(SubSeq(s, 1, Min2(m, Len(s))))
Left(s, m) == IF m >= Len(s) THEN <<0>> ELSE SubSeq(s, m + 1, Len(s))
RECURSIVE Kara(_, _)
Kara(a, b) ==
    IF Len(a) <= Thres \/ Len(b) <= Thres THEN NumOf(a) * NumOf(b)
    ELSE LET m == Min2(Len(a) \div 2, Len(b) \div 2)
             x1 == Left(a, m)  x0 == Right(a, m)  y1 == Left(b, m)  y0 == Right(b, m)
             z2 == Kara(x1, y1)
             z0 == Kara(x0, y0)
             zz == Kara(DigitsOf(NumOf(x1) + NumOf(x0)), DigitsOf(NumOf(y1) + NumOf(y0)))
         IN  IF zz - z2 < z0 THEN -1         \* the subtraction of two unsigned numbers would panic
             ELSE z2 * B ^ (2 * m) + (zz - z2 - z0) * B ^ m + z0
KaraEnd == /\ op = "kara" /\ pc = "start" /\ pc' = "done"
           /\ quot' = Kara(x, y)
           /\ UNCHANGED <<op, x, y, d, i, j, c, rest, stack>>
KaraInv == op = "kara" /\ pc = "done" => quot = X * Y

(* Division: the quotient is estimated from the top five digits of the     *)
(* dividend and the top two of the divisor, and the rest is divided again. *)
(* The estimate may be too large; then the excess is divided instead.      *)
(* rest is the current dividend, quot what has been found so far of the    *)
(* current call's quotient; a frame <<dividend, estimate, quot>> waits for *)
(* the quotient of an excess.                                              *)
Tops(s, n) == NumOf(SubSeq(s, Len(s) - n + 1, Len(s)))
Word == B ^ 2
(* a five digit number by a word, in two steps *)
Q1(t5, w) == (t5 \div Word) \div w
Q2(t5, w) == ((((t5 \div Word) % w) * Word) + (t5 % Word)) \div w
Approx(t5, w) == Q1(t5, w) * Word + Q2(t5, w)
Return(v) ==
    IF stack = <<>> THEN quot' = v /\ pc' = "done" /\ UNCHANGED <<rest, stack>>
    ELSE LET f == stack[Len(stack)]
             a4 == f[2] - v
             a == IF a4 * Y <= f[1] THEN a4 ELSE a4 - 1
         IN  /\ quot' = f[3] + a /\ rest' = 0 /\ pc' = "start"
             /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
Again(q, r) == quot' = quot + q /\ rest' = r /\ UNCHANGED <<pc, stack>>
DivStep ==
    /\ op = "div" /\ pc = "start"
    /\ UNCHANGED <<op, x, y, d, i, j, c>>
    /\ LET a == DigitsOf(rest)
           n == Len(a)
           m == Len(y)
       IN  IF Y = 0 THEN pc' = "panic" /\ UNCHANGED <<rest, quot, stack>>
           ELSE IF n < m THEN Return(quot)
           ELSE IF (n < 5 /\ m < 5) \/ m = 1 THEN Return(quot + rest \div Y)
           ELSE IF n > m THEN
               LET w == Tops(y, 2)
                   t5 == Tops(a, 5)
                   a1 == IF w = Word - 1 THEN t5 \div Word ELSE Approx(t5, w + 1)
                   a2 == Approx(t5, w)
                   shift == n - m - 3
               IN  IF shift < 0 THEN LET q == a1 \div B ^ (-shift) IN Again(q, rest - Y * q)
                   ELSE IF m = 2 \/ a1 = a2 THEN LET q == a1 * B ^ shift IN Again(q, rest - Y * q)
                   ELSE LET p == (y[m - 2] * Parts) \div B + 1
                            a3 == (a1 * p + a2 * (Parts - p)) \div Parts
                            q == a3 * B ^ shift
                        IN  IF rest >= Y * q THEN Again(q, rest - Y * q)
                            ELSE /\ stack' = Append(stack, <<rest, q, quot>>)
                                 /\ rest' = Y * q - rest /\ quot' = 0 /\ pc' = pc
           ELSE LET s == Tops(a, 2)  w == Tops(y, 2)
                IN  IF s < w THEN Return(quot)
                    ELSE IF s > w THEN LET q == s \div (w + 1) IN Again(q, rest - Y * q)
                    ELSE Return(quot + IF rest >= Y THEN 1 ELSE 0)
DivInv == op = "div" =>
    /\ rest >= 0 /\ quot >= 0
    /\ pc = "start" /\ stack = <<>> => quot * Y + rest = X \/ (rest = 0 /\ quot = X \div Y)
    /\ pc = "done" => quot * Y <= X /\ X < (quot + 1) * Y
    /\ pc = "panic" <=> (pc # "start" /\ Y = 0)
    /\ Len(stack) <= 1
(* the estimate's two halves fit in machine words *)
DivWords == op = "div" /\ pc = "start" /\ Y > 0 /\ Len(y) > 1 /\ Length(rest) >= 5 /\ Length(rest) > Len(y) =>
    LET w == Tops(y, 2)  t5 == Tops(DigitsOf(rest), 5)
    IN  Q1(t5, w) < Word /\ Q2(t5, w) < Word
(* every step of a call makes the dividend smaller *)
DivShrinks == [][op = "div" /\ pc' = "start" /\ stack' = stack => rest' < rest]_vars

(* Square root: a first guess from the top two digits, Newton steps until  *)
(* one is shorter than a digit, then up and down with decreasing steps.    *)
(* quot is the guess, c the step.                                          *)
RECURSIVE Isqrt(_, _)
Isqrt(n, k) == IF (k + 1) * (k + 1) > n THEN k ELSE Isqrt(n, k + 1)
SqrtStart ==
    /\ op = "sqrt" /\ pc = "start"
    /\ UNCHANGED <<op, x, y, d, i, j, rest, stack>>
    /\ IF Len(x) < 3 THEN quot' = Isqrt(X, 0) /\ pc' = "done" /\ c' = c
       ELSE LET g == Isqrt(Tops(x, 2), 0)
                g2 == (IF Len(x) % 2 = 1 THEN g * RootB ELSE g) * B ^ (Len(x) \div 2 - 1)
            IN  /\ g2 * g2 <= X
                /\ quot' = g2 + ((X - g2 * g2) \div 2) \div g2
                /\ pc' = "newton" /\ c' = c
SqrtNewton ==
    /\ op = "sqrt" /\ pc = "newton"
    /\ UNCHANGED <<op, x, y, d, i, j, rest, stack>>
    /\ LET s == quot * quot
           step == IF X >= s THEN ((X - s) \div 2) \div quot ELSE ((s - X) \div 2) \div quot
       IN  /\ quot' = IF X >= s THEN quot + step ELSE quot - step
           /\ IF step < B THEN c' = (IF step = 0 THEN 2 ELSE step) /\ pc' = "up" ELSE c' = c /\ pc' = pc
SqrtUp ==
    /\ op = "sqrt" /\ pc = "up"
    /\ UNCHANGED <<op, x, y, d, i, j, rest, stack>>
    /\ IF quot * quot < X THEN quot' = quot + c /\ UNCHANGED <<pc, c>>
       ELSE /\ quot' = quot /\ pc' = "down"
            /\ c' = IF c \div 4 < 4 THEN 1 ELSE c \div 4
SqrtDown ==
    /\ op = "sqrt" /\ pc = "down"
    /\ UNCHANGED <<op, x, y, d, i, j, rest, stack>>
    /\ IF quot * quot > X THEN quot >= c /\ quot' = quot - c /\ UNCHANGED <<pc, c>>
       ELSE /\ quot' = quot /\ c' = c \div 4
            /\ pc' = IF c \div 4 = 0 THEN "done" ELSE "up"
SqrtInv == op = "sqrt" /\ pc = "done" => quot * quot <= X /\ X < (quot + 1) * (quot + 1)

(* Euclid *)
RECURSIVE Divides(_, _)
Divides(a, b) == IF a = 0 THEN b = 0 ELSE b % a = 0
GcdStep ==
    /\ op = "gcd" /\ pc = "start"
    /\ IF rest = 0 THEN pc' = "done" /\ UNCHANGED <<rest, quot>>
       ELSE rest' = quot % rest /\ quot' = rest /\ pc' = pc
    /\ UNCHANGED <<op, x, y, d, i, j, c, stack>>
GcdInv == op = "gcd" =>
    /\ \A k \in 1..Max2(X, Y) : (Divides(k, X) /\ Divides(k, Y)) <=> (Divides(k, rest) /\ Divides(k, quot))
    /\ pc = "done" => rest = 0

Next == \/ AddDigit \/ AddEnd \/ SubDigit \/ SubEnd \/ MulDigit \/ MulCarry \/ KaraEnd \/ DivStep
        \/ SqrtStart \/ SqrtNewton \/ SqrtUp \/ SqrtDown \/ GcdStep
Stop == pc \in {"done", "panic"} /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Stop]_vars /\ WF_vars(Next)
(* a run that gets stuck is a deadlock; one that goes round for ever is a  *)
(* violation of this                                                       *)
Ends == <>(pc \in {"done", "panic"})

------------------------------------------------------------------------------
U(z) == <<"u", z>>
RECURSIVE Big(_)
Big(s) == IF s = <<>> THEN ZZero ELSE ZAdd(Limb[s[1] + 1], ZMul(ZPow2(32), Big(Tail(s))))
RECURSIVE Blocks(_)
Blocks(s) == IF s = <<>> THEN <<>> ELSE [k \in 1..Block |-> s[1]] \o Blocks(Tail(s))
Ask2(n, a, k) == <<"u", n, 0, a, <<>>, k>>
In2(n, k) == << <<"", "cp", 0, <<1>>, <<>>, k>>, <<"u", n, 1, <<k, 2>>, <<>>, k>> >>
Calls == CASE op = "add" -> <<Ask2("add", <<1, 2>>, 3), Ask2("add", <<2, 1>>, 4)>> \o In2("add", 5)
           [] op = "sub" -> <<Ask2("sub", <<1, 2>>, 3), Ask2("abs_diff", <<1, 2>>, 4), Ask2("abs_diff", <<2, 1>>, 5)>> \o In2("sub", 6)
           [] op \in {"mul", "kara"} -> <<Ask2("mul", <<1, 2>>, 3), Ask2("mul", <<2, 1>>, 4)>> \o In2("mul", 5)
           [] op = "div" -> <<Ask2("div", <<1, 2>>, 3), Ask2("rem", <<1, 2>>, 4)>> \o In2("div", 5)
           [] op = "sqrt" -> <<Ask2("sqrt", <<1>>, 3)>>
           [] op = "gcd" -> <<Ask2("gcd", <<1, 2>>, 3), Ask2("gcd", <<2, 1>>, 4)>>
Ld(v, k) == <<"", "ld", 0, <<>>, <<v>>, k>>
Written == pc # "start" \/ i # 1 \/ j # 1 \/ stack # <<>> \/ (op \in {"div", "gcd"} /\ rest # X)
           \/ (Every > 1 /\ (X * 31 + Y * 17) % Every # 0)
           \/ Emit(IOEnv.OUT, <<Ld(U(Big(Blocks(x))), 1), Ld(U(Big(Blocks(y))), 2)>> \o Calls)
M32 == ZSub(ZPow2(32), ZOne)
Limb2 == <<ZZero, M32>>
Limb3 == <<ZZero, ZPow2(31), M32>>
Limb4 == <<ZZero, ZOne, ZPow2(31), M32>>
Limb9 == <<ZZero, ZOne, ZTwo, Z(65535), Z(65536), ZSub(ZPow2(31), ZOne), ZPow2(31), ZSub(M32, ZOne), M32>>
=============================================================================
