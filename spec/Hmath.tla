------------------------------- MODULE Hmath -------------------------------
(***************************************************************************)
(* The whole library as one relation:                                      *)
(*   Allowed(f, n, a, c, o)                                                *)
(* operation n of family f, on register values a and constants c, may have *)
(* the outcome o.                                                          *)
(***************************************************************************)
EXTENDS HF192, HSeries, HMatrix

(* An error is <<"err", kind>>; which kind matters for matrices only.      *)
Plain(o) == IF o[1] = "err" THEN Err ELSE o

Allowed(f, n, a, c, o) ==
    CASE f = "u" -> IF n \in IntFloat THEN IntFloatAllowed(UOfZ, n, a, c, Plain(o)) ELSE UAllowed(n, a, c, Plain(o))
      [] f = "i" -> IF n \in IntFloat THEN IntFloatAllowed(OkI, n, a, c, Plain(o)) ELSE IAllowed(n, a, c, Plain(o))
      [] f = "r" -> IF n \in SeriesOps THEN SeriesAllowed(n, a, c, Plain(o)) ELSE RAllowed(n, a, c, Plain(o))
      [] f = "c" -> CAllowed(n, a, c, Plain(o))
      [] f = "f" -> FAllowed(n, a, c, Plain(o))
      [] f = "m" -> MAllowed(n, a, c, o)
      [] f = "p" -> PAllowed(n, a, c, o)
=============================================================================
