------------------------------ MODULE MCMatrix ------------------------------
(* Matrix: all small matrices over small entries, and histories of calls on them *)
EXTENDS Calculator

CONSTANTS Entries, Sizes, YEntries, YSizes
Tern == {RInt(Z(k)) : k \in {-1, 0, 2}}
Bits == {RZero, ROne}
Signs == {RInt(Z(k)) : k \in {-1, 0, 1}}
Fracs == {RZero, R(ZOne, ZTwo), R(Z(-2), Z(3))}
(* all r by c matrices over es *)
RowsOver(es, c) == [1..c -> es]
OfSize(es, r, c) == {<<"m", r, c, d>> : d \in [1..r -> RowsOver(es, c)]}
All(es, sizes) == UNION {OfSize(es, z[1], z[2]) : z \in sizes}
OfX == All(Entries, Sizes)
OfY == All(YEntries, YSizes)
OfZ == {R(Z(-3), Z(2))}
Two == {<<2, 2>>}
UpTo2 == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
Three == {<<3, 3>>}
Four == {<<4, 4>>}
Oblong == {<<2, 3>>, <<3, 2>>}
One == {<<1, 1>>}

PickM(f, n, a, c) ==
    CASE n = "add" -> Ok(M(MR(a[1]), MC(a[1]), LAMBDA i, j : RAdd(At(a[1], i, j), At(a[2], i, j))))
      [] n = "mul" -> Ok(MMul(a[1], a[2]))
      [] n = "mul_k" -> Ok(M(MR(a[1]), MC(a[1]), LAMBDA i, j : RMul(At(a[1], i, j), a[2])))
      [] n = "transpose" -> Ok(M(MC(a[1]), MR(a[1]), LAMBDA i, j : At(a[1], j, i)))
MovesM == {In("m", "transpose", <<1>>, <<>>), In("m", "mul_k", <<1, 3>>, <<>>), To("m", "transpose", <<2>>, <<>>, 2)}
MovesNone == {}
MovesSquare == MovesM \cup {In("m", "add", <<1, 2>>, <<>>), To("m", "mul", <<1, 2>>, <<>>, 1), To("m", "mul", <<2, 1>>, <<>>, 1)}
AskM(n, a, c) == Ask("m", n, a, c)
LooksM == <<AskM("is_square", <<1>>, <<>>), AskM("determinant", <<1>>, <<>>), AskM("inverse", <<1>>, <<>>), AskM("transpose", <<1>>, <<>>), In("m", "transpose", <<1>>, <<>>),
            AskM("mul", <<1, 2>>, <<>>), AskM("mul", <<2, 1>>, <<>>), AskM("add", <<1, 2>>, <<>>), AskM("add", <<2, 1>>, <<>>), In("m", "add", <<1, 2>>, <<>>),
            AskM("mul_k", <<1, 3>>, <<>>), AskM("mul_k_i32", <<1>>, <<N(Z(-2))>>), AskM("ratio_string", <<1>>, <<>>), AskM("eq", <<1, 2>>, <<>>), AskM("eq", <<1, 1>>, <<>>),
            AskM("get", <<1>>, <<N(ZZero), N(ZOne)>>), AskM("get", <<1>>, <<N(ZOne), N(ZZero)>>), AskM("get", <<1>>, <<N(ZTwo), N(ZZero)>>), In("m", "set", <<1, 3>>, <<N(ZZero), N(ZOne)>>)>>
LooksDet == <<AskM("determinant", <<1>>, <<>>), AskM("inverse", <<1>>, <<>>), AskM("transpose", <<1>>, <<>>), AskM("mul", <<1, 1>>, <<>>)>>

(* Leibniz: the sum over all permutations *)
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Inversions(p) == Cardinality({<<i, j>> \in (1..Len(p)) \X (1..Len(p)) : i < j /\ p[i] > p[j]})
RECURSIVE RProdTo(_, _)
RProdTo(s, k) == IF k = 0 THEN ROne ELSE RMul(s[k], RProdTo(s, k - 1))
Term(m, p) == LET t == RProdTo([i \in 1..MR(m) |-> At(m, i, p[i])], MR(m)) IN IF Inversions(p) % 2 = 0 THEN t ELSE RNeg(t)
RECURSIVE SumSet(_, _)
SumSet(m, ps) == IF ps = {} THEN RZero ELSE LET p == CHOOSE q \in ps : TRUE IN RAdd(Term(m, p), SumSet(m, ps \ {p}))
Perms1 == Perms(1)  Perms2 == Perms(2)  Perms3 == Perms(3)
Leibniz(m) == SumSet(m, CASE MR(m) = 1 -> Perms1 [] MR(m) = 2 -> Perms2 [] MR(m) = 3 -> Perms3)
Square(m) == MR(m) = MC(m)
LawsM ==
    LET x == regs[1] y == regs[2]
        T(m) == PickM("m", "transpose", <<m>>, <<>>)[2]
        ok(n, a, v) == Allowed("m", n, a, <<>>, Ok(v)) /\ ~Allowed("m", n, a, <<>>, Panic)
    IN  /\ ok("transpose", <<T(x)>>, x)
        /\ MC(x) = MR(y) => ok("transpose", <<MMul(x, y)>>, MMul(T(y), T(x)))
        /\ (MR(x) = MR(y) /\ MC(x) = MC(y)) => ok("add", <<y, x>>, PickM("m", "add", <<x, y>>, <<>>)[2])
        /\ Square(x) /\ MR(x) <= 3 =>
             LET d == Det(x) IN
             /\ d = Leibniz(x) /\ d = Det(T(x))
             /\ ok("determinant", <<x>>, d)
             /\ (Square(y) /\ MR(y) = MR(x)) => Det(MMul(x, y)) = RMul(d, Det(y))
             /\ RIsZero(d) <=> Allowed("m", "inverse", <<x>>, <<>>, Kind("ZeroDeterminant"))
             /\ ~RIsZero(d) => \* the adjugate over the determinant
                  LET minor(i, j) == DetRows(LET rows == Others(x[4], i) IN [k \in 1..Len(rows) |-> Others(rows[k], j)])
                      inv == M(MR(x), MR(x), LAMBDA i, j : LET v == RDiv(minor(j, i), d) IN IF (i + j) % 2 = 0 THEN v ELSE RNeg(v))
                  IN  ok("inverse", <<x>>, inv) /\ (x = inv \/ ~Allowed("m", "inverse", <<x>>, <<>>, Ok(x)))
        /\ ~Square(x) => ~Allowed("m", "determinant", <<x>>, <<>>, Ok(RZero)) /\ ~Allowed("m", "inverse", <<x>>, <<>>, Ok(x))
=============================================================================
