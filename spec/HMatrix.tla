------------------------------ MODULE HMatrix ------------------------------
(***************************************************************************)
(* Matrix (family "m") and Polynomial (family "p") over the rationals.     *)
(*                                                                         *)
(* A matrix is <<"m", rows, cols, data>>, data[i][j] the entry of row i    *)
(* and column j, counted from 1.  A polynomial is <<"p", coefficients>>,   *)
(* the highest power first, without leading zeros; the zero polynomial is  *)
(* <<0>>.                                                                  *)
(***************************************************************************)
EXTENDS HRatio, TLC, FiniteSets

M(r, c, f(_, _)) == <<"m", r, c, [i \in 1..r |-> [j \in 1..c |-> f(i, j)]]>>
MR(m) == m[2]
MC(m) == m[3]
At(m, i, j) == m[4][i][j]
Kind(k) == <<"err", k>>
Comma(a, b) == "," \o ToString(a) \o "," \o ToString(b)

RECURSIVE RSum(_, _)
RSum(s, k) == IF k = 0 THEN RZero ELSE RAdd(RSum(s, k - 1), s[k])
MMul(x, y) == M(MR(x), MC(y), LAMBDA i, j : RSum([k \in 1..MC(x) |-> RMul(At(x, i, k), At(y, k, j))], MC(x)))
MEye(n) == M(n, n, LAMBDA i, j : IF i = j THEN ROne ELSE RZero)

(* Determinant by elimination: rows is a square array.                     *)
RECURSIVE PivotRow(_, _)
PivotRow(rows, k) == IF k > Len(rows) THEN 0 ELSE IF ~RIsZero(rows[k][1]) THEN k ELSE PivotRow(rows, k + 1)
Others(s, k) == SubSeq(s, 1, k - 1) \o From(s, k + 1)
RECURSIVE DetRows(_)
DetRows(rows) ==
    IF Len(rows) = 0 THEN ROne
    ELSE LET k == PivotRow(rows, 1) IN
         IF k = 0 THEN RZero
         ELSE LET p == rows[k]
                  rest == Others(rows, k)
                  low == [i \in 1..Len(rest) |->
                            LET q == RDiv(rest[i][1], p[1])
                            IN  [j \in 1..(Len(p) - 1) |-> RSub(rest[i][j + 1], RMul(q, p[j + 1]))]]
                  d == RMul(p[1], DetRows(low))
              IN  IF k % 2 = 1 THEN d ELSE RNeg(d)
Det(m) == DetRows(m[4])
NotInvertible(m) ==     \* the error, or "" if there is none
    IF MR(m) # MC(m) THEN "NotSquare" \o Comma(MC(m), MR(m))
    ELSE IF MR(m) = 0 THEN "EmptyMatrix" ELSE ""

(* text: [[a, b], [c, d]] *)
RECURSIVE Join(_, _)
Join(s, k) == IF k > Len(s) THEN <<>> ELSE IF k = Len(s) THEN s[k] ELSE s[k] \o <<44, 32>> \o Join(s, k + 1)
Bracket(s) == <<91>> \o s \o <<93>>
MText(m) == Bracket(Join([i \in 1..MR(m) |-> Bracket(Join([j \in 1..MC(m) |-> RatioText(At(m, i, j))], 1))], 1))

MOfRows(rows) ==    \* a sequence of <<"l", entries>>
    IF Len(rows) = 0 THEN Ok(<<"m", 0, 0, <<>>>>)
    ELSE IF \E i \in 1..Len(rows) : Len(rows[i][2]) # Len(rows[1][2]) THEN Kind("InconsistentRow")
    ELSE Ok(M(Len(rows), Len(rows[1][2]), LAMBDA i, j : LET x == rows[i][2][j] IN IF x[1] = "r" THEN x ELSE RInt(x[2])))

MAllowed(n, a, c, o) ==
    LET x == a[1]
        y == a[2]
        p == ToInt(c[1][2])
        q == ToInt(c[2][2])
    IN
    CASE n \in {"from_vec", "from_vec_generic", "from_raw"} -> o = MOfRows(c[1][2])
      [] n = "empty" -> o = Ok(<<"m", 0, 0, <<>>>>)
      [] n = "zeros" -> o = Ok(M(q, p, LAMBDA i, j : RZero))
      [] n = "identity" -> o = Ok(MEye(p))
      [] n = "generate" -> o = Ok(M(q, p, LAMBDA i, j : RInt(Z(1000 * (i - 1) + j - 1))))
      [] n = "is_square" -> o = OkB(MR(x) = MC(x))
      [] n = "get" -> IF p < MR(x) /\ q < MC(x) THEN o = Ok(At(x, p + 1, q + 1)) ELSE o = Panic
      [] n = "set" -> IF p < MR(x) /\ q < MC(x)
                      THEN o = Ok(M(MR(x), MC(x), LAMBDA i, j : IF i = p + 1 /\ j = q + 1 THEN y ELSE At(x, i, j)))
                      ELSE o = Panic
      [] n = "add" -> IF MR(x) = MR(y) /\ MC(x) = MC(y)
                      THEN o = Ok(M(MR(x), MC(x), LAMBDA i, j : RAdd(At(x, i, j), At(y, i, j))))
                      ELSE o = Kind("WrongDimension" \o Comma(MC(x), MR(x)) \o Comma(MC(y), MR(y)))
      [] n = "mul" -> IF MC(x) = MR(y) THEN o = Ok(MMul(x, y))
                      ELSE o = Kind("WrongDimension" \o Comma(MC(y), MC(x)) \o Comma(MC(y), MR(y)))
      [] n = "mul_k" -> o = Ok(M(MR(x), MC(x), LAMBDA i, j : RMul(At(x, i, j), y)))
      [] n = "mul_k_bi" -> o = Ok(M(MR(x), MC(x), LAMBDA i, j : RMul(At(x, i, j), RInt(y[2]))))
      [] n = "mul_k_i32" -> o = Ok(M(MR(x), MC(x), LAMBDA i, j : RMul(At(x, i, j), RInt(c[1][2]))))
      [] n = "transpose" -> o = Ok(M(MC(x), MR(x), LAMBDA i, j : At(x, j, i)))
      [] n = "determinant" -> IF NotInvertible(x) # "" THEN o = Kind(NotInvertible(x)) ELSE o = Ok(Det(x))
      [] n \in {"det2", "det3", "det4"} -> o = Ok(Det(x))
      [] n = "inverse" ->
            IF NotInvertible(x) # "" THEN o = Kind(NotInvertible(x))
            ELSE IF RIsZero(Det(x)) THEN o = Kind("ZeroDeterminant")
            ELSE /\ o[1] = "ok" /\ o[2][1] = "m"
                 /\ MR(o[2]) = MR(x) /\ MC(o[2]) = MC(x)
                 /\ MMul(x, o[2]) = MEye(MR(x))
                 /\ MMul(o[2], x) = MEye(MR(x))
      [] n = "ratio_string" -> o = Ok(S(MText(x)))
      [] n = "eq" -> o = OkB(x = y)

---------------------------------------------------------------------------
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 0 /\ RIsZero(s[1]) THEN Strip(From(s, 2)) ELSE s
Poly(s) == LET t == Strip(s) IN <<"p", IF t = <<>> THEN <<RZero>> ELSE t>>
Deg(p) == Len(p[2]) - 1
RECURSIVE EvalTo(_, _, _, _)
EvalTo(s, x, k, pw) ==    \* the terms of the last k coefficients, pw = x^(Len - k)
    IF k = 0 THEN RZero ELSE RAdd(RMul(s[k], pw), EvalTo(s, x, k - 1, RMul(pw, x)))
PEval(p, x) == EvalTo(p[2], x, Len(p[2]), ROne)
PDiff(p) == LET n == Len(p[2]) IN Poly([k \in 1..(n - 1) |-> RMul(p[2][k], RInt(Z(n - k)))])
PScale(p, k) == Poly([j \in 1..Len(p[2]) |-> RMul(p[2][j], k)])

(* text: the terms in order, highest power first: "a * x^k", the           *)
(* coefficient left out when it is 1 and the power when it is 0            *)
PTerm(co, k, txt) ==
    (IF RAbs(co) = ROne /\ k > 0 THEN <<>> ELSE txt \o (IF k > 0 THEN <<32, 42, 32>> ELSE <<>>))
    \o (IF k = 0 THEN <<>> ELSE IF k = 1 THEN <<120>> ELSE <<120, 94>> \o UDigitsText(Z(k), 10))
RECURSIVE PText(_, _, _)
PText(s, k, started) ==
    IF k > Len(s) THEN (IF started THEN <<>> ELSE <<48>>)
    ELSE IF RIsZero(s[k]) THEN PText(s, k + 1, started)
    ELSE (IF started THEN (IF Sgn(s[k][2]) < 0 THEN <<32, 45, 32>> ELSE <<32, 43, 32>>)
          ELSE IF Sgn(s[k][2]) < 0 THEN <<45>> ELSE <<>>)
         \o PTerm(s[k], Len(s) - k, RatioText(RAbs(s[k])))
         \o PText(s, k + 1, TRUE)

(* the same with each printed coefficient an approximation *)
IsAt(t, s) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
RECURSIVE PApprox(_, _, _, _, _)
PApprox(s, k, n, started, txt) ==
    IF k > Len(s) THEN txt = (IF started THEN <<>> ELSE <<48>>)
    ELSE IF RIsZero(s[k]) THEN PApprox(s, k + 1, n, started, txt)
    ELSE LET lead == IF started THEN (IF Sgn(s[k][2]) < 0 THEN <<32, 45, 32>> ELSE <<32, 43, 32>>)
                     ELSE IF Sgn(s[k][2]) < 0 THEN <<45>> ELSE <<>>
             body == From(txt, Len(lead) + 1)
             pw == Len(s) - k
             bare == RAbs(s[k]) = ROne /\ pw > 0
             num == IF bare THEN <<>> ELSE SubSeq(body, 1, Find(body, 1, 32) - 1)
             tail == PTerm(s[k], pw, num)
         IN  /\ IsAt(lead, txt)
             /\ bare \/ (num # <<>> /\ ApproxOK(RAbs(s[k]), n, num))
             /\ IsAt(tail, body)
             /\ PApprox(s, k + 1, n, TRUE, From(body, Len(tail) + 1))

IsPoly(o) == o[1] = "ok" /\ o[2][1] = "p"
OfEntry(x) == IF x[1] = "r" THEN x ELSE RInt(x[2])
Canonical(p) == p = Poly(p[2])

PAllowed(n, a, c, o) ==
    LET x == a[1]
        y == a[2]
        cs == c[1][2]
        pt(i) == [k \in 1..2 |-> OfEntry(cs[i][2][k])]
    IN
    CASE n \in {"from_vec", "from_vec_generic"} -> o = Ok(Poly([k \in 1..Len(cs) |-> OfEntry(cs[k])]))
      [] n = "to_vec" -> o = Ok(L(x[2]))
      [] n \in {"to_vec_f32", "to_vec_f64"} ->
            LET t == IF n = "to_vec_f32" THEN F32 ELSE F64
            IN  \/ /\ o[1] = "ok" /\ o[2][1] = "l"
                   /\ Len(o[2][2]) = Len(x[2])
                   /\ \A k \in 1..Len(x[2]) : FlNearest(t, x[2][k], o[2][2][k][2])
                \/ /\ o = Panic
                   /\ \E k \in 1..Len(x[2]) : RLt(FlMax(t), RAbs(x[2][k]))
      [] n = "mul_k" -> o = Ok(PScale(x, y))
      [] n = "mul_k_i32" -> o = Ok(PScale(x, RInt(c[1][2])))
      [] n = "differentiate" -> o = Ok(PDiff(x))
      [] n = "calc" -> o = Ok(PEval(x, y))
      [] n \in {"newton", "newton_with"} ->
            LET d == PEval(IF n = "newton" THEN PDiff(x) ELSE a[3], y)
            IN  IF RIsZero(d) THEN o = Panic ELSE o = Ok(RSub(y, RDiv(PEval(x, y), d)))
      [] n = "ratio_string" -> o = Ok(S(PText(x[2], 1, FALSE)))
      [] n = "approx" -> TextOK(o, LAMBDA s : PApprox(x[2], 1, ToInt(c[1][2]), FALSE, s))
      [] n = "eq" -> o = OkB(x = y)
      [] n \in {"from_points", "from_points_generic"} ->    \* through all the points, of lower degree than their number
            IF Len(cs) = 0 \/ \E i, j \in 1..Len(cs) : i # j /\ pt(i)[1] = pt(j)[1]
            THEN o = Kind("ZeroDeterminant")
            ELSE /\ IsPoly(o)
                 /\ Canonical(o[2])
                 /\ Len(o[2][2]) <= Len(cs)
                 /\ \A i \in 1..Len(cs) : PEval(o[2], pt(i)[1]) = pt(i)[2]
      [] n = "linear" ->
            /\ IsPoly(o)
            /\ Canonical(o[2])
            /\ IF cs[1] = cs[2] THEN o[2] \in {Poly(<<cs[3]>>), Poly(<<cs[4]>>)}
               ELSE /\ Deg(o[2]) <= 1
                    /\ PEval(o[2], cs[1]) = cs[3]
                    /\ PEval(o[2], cs[2]) = cs[4]
      [] n = "quadratic" ->    \* the points (1, 4), (2, 5), (3, 6); one of two values at the same place counts
            /\ IsPoly(o)
            /\ Canonical(o[2])
            /\ Deg(o[2]) < Cardinality({cs[1], cs[2], cs[3]})
            /\ \A i \in 1..3 : \E j \in 1..3 : cs[j] = cs[i] /\ PEval(o[2], cs[j]) = cs[j + 3]
      [] n = "cubic" ->        \* value and slope at two places; at one place if they are equal
            /\ IsPoly(o)
            /\ Canonical(o[2])
            /\ PEval(o[2], cs[1]) = cs[3]
            /\ PEval(PDiff(o[2]), cs[1]) = cs[5]
            /\ IF cs[1] = cs[2] THEN Deg(o[2]) <= 1
               ELSE /\ Deg(o[2]) <= 3
                    /\ PEval(o[2], cs[2]) = cs[4]
                    /\ PEval(PDiff(o[2]), cs[2]) = cs[6]
=============================================================================
