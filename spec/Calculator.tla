----------------------------- MODULE Calculator -----------------------------
(***************************************************************************)
(* The library as a state machine.  The state is a program's variables     *)
(* (registers holding values); a step is a call, returning or in place.    *)
(* Every step satisfies the relation Allowed, which is what conformance    *)
(* checking (Trace.tla) judges the real library's steps by.                *)
(*                                                                         *)
(* TLC explores all histories of at most MaxDepth calls of Moves from all  *)
(* register contents StartX, StartY, StartZ.  In every state reached it checks the laws  *)
(* and writes out a session for replay in the real library: the history,   *)
(* then every call of Looks.  The replay must conform to Trace.tla.        *)
(***************************************************************************)
EXTENDS Laws, SessionIO, TLC, IOUtils

CONSTANTS
    StartX, StartY, StartZ,     \* initial contents of the registers: sets of values
    Moves,      \* calls <<family, name, inplace, registers, constants, dest>>
    Looks,      \* calls made in every state, on copies when in place
    MaxDepth,   \* number of moves
    MaxBits,    \* integers of more binary digits are not operated on further
    Pick(_, _, _, _),   \* an outcome the specification allows: family, name, arguments, constants
    More(_),    \* further calls, depending on the registers
    Every       \* write out a session for one in this many states

VARIABLES regs, log
vars == <<regs, log>>
View == regs
Depth == Len(log) - Len(regs)

Init == /\ \E x \in StartX, y \in StartY, z \in StartZ : regs = <<x, y, z>>
        /\ log = [k \in 1..Len(regs) |-> <<"", "ld", 0, <<>>, <<regs[k]>>, k>>]

Args(m) == [k \in 1..Len(m[4]) |-> regs[m[4][k]]]
Size(v) == CASE v[1] \in {"u", "i"} -> ZBits(v[2])
             [] v[1] = "r" -> ZBits(v[2]) + ZBits(v[3])
             [] OTHER -> 0

Do(m) == LET o == Pick(m[1], m[2], Args(m), m[5])
         IN  /\ o[1] = "ok"
             /\ Size(o[2]) <= MaxBits
             /\ regs' = [regs EXCEPT ![m[6]] = o[2]]
             /\ log' = Append(log, m)
Next == /\ Depth < MaxDepth
        /\ \E m \in Moves : Do(m)
Done == /\ Depth = MaxDepth
        /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars

(* the calls of Looks, each with a destination of its own *)
Fresh == 10
Look(m, k) == IF m[3] = 1
              THEN << <<"", "cp", 0, <<m[4][1]>>, <<>>, Fresh + k>>,
                      <<m[1], m[2], 1, <<Fresh + k>> \o SubSeq(m[4], 2, Len(m[4])), m[5], Fresh + k>> >>
              ELSE << <<m[1], m[2], 0, m[4], m[5], Fresh + k>> >>
RECURSIVE LookAll(_, _)
LookAll(ls, k) == IF k = 0 THEN <<>> ELSE LookAll(ls, k - 1) \o Look(ls[k], k)
NoMore(r) == <<>>

Written == (Every > 1 /\ RandomElement(1..Every) # 1) \/ LET ls == Looks \o More(regs) IN Emit(IOEnv.OUT, log \o LookAll(ls, Len(ls)))

(* calls, written shortly: in place on register 1, or returning to d *)
In(f, n, a, c) == <<f, n, 1, a, c, a[1]>>
To(f, n, a, c, d) == <<f, n, 0, a, c, d>>
Ask(f, n, a, c) == <<f, n, 0, a, c, 0>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Each(f(_), names) == Flat([k \in 1..Len(names) |-> f(names[k])])

(* boundary limbs, and all numbers of at most n limbs taken from the set ls *)
N32 == ZPow2(32)
M32 == ZSub(N32, ZOne)
H32 == ZPow2(31)
RECURSIVE OfLimbs(_, _)
OfLimbs(ls, n) == IF n = 0 THEN {ZZero}
                  ELSE {ZAdd(ZMul(h, N32), l) : h \in OfLimbs(ls, n - 1), l \in ls}
Few == {ZZero, ZOne, M32}
Some == {ZZero, ZOne, H32, ZSub(M32, ZOne), M32}
PlusMinus(s) == s \cup {ZNeg(x) : x \in s}

Cmps == <<"lt", "gt", "eq", "neq", "leq", "geq", "comp", "cmp", "partial_cmp", "op_lt", "op_gt", "op_eq", "op_ne", "op_le", "op_ge", "hash_eq">>
OrderLooks(f) == Flat([k \in 1..Len(Cmps) |-> <<Ask(f, Cmps[k], <<1, 2>>, <<>>), Ask(f, Cmps[k], <<2, 1>>, <<>>), Ask(f, Cmps[k], <<1, 1>>, <<>>)>>])
                 \o <<Ask(f, "min", <<1, 2>>, <<>>), Ask(f, "max", <<1, 2>>, <<>>), Ask(f, "sort", <<1, 2, 3, 2>>, <<>>)>>
SmallCmps32(f, t, ks) == Flat([j \in 1..Len(ks) |->
                            <<Ask(f, "lt_" \o t, <<1>>, <<N(ks[j])>>), Ask(f, "gt_" \o t, <<1>>, <<N(ks[j])>>), Ask(f, "eq_" \o t, <<1>>, <<N(ks[j])>>)>>])

(* C04 in the specification: the registers hold canonical values *)
AllCanonical == \A k \in 1..Len(regs) : Canon(regs[k])
(* every move of the function Pick is one the relation Allowed admits,    *)
(* and one that panics is one Allowed says must panic                      *)
MovesAllowed == \A m \in Moves : Allowed(m[1], m[2], Args(m), m[5], Pick(m[1], m[2], Args(m), m[5]))
=============================================================================
