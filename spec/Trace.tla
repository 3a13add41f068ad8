------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: recorded sessions of the real library are behaviours of    *)
(* the calculator specification.                                           *)
(*                                                                         *)
(* Every session of the trace is one behaviour.  Each step consumes one    *)
(* event of the session and must be a step the specification allows in the *)
(* current state (the registers); an event which is not allowed has no     *)
(* step, which TLC reports as a deadlock.                                  *)
(*                                                                         *)
(* Events: <<family, name, inplace, registers, constants, dest, outcome>>. *)
(***************************************************************************)
EXTENDS Hmath, TraceIO, TLC, IOUtils

TraceFile == IOEnv.TRACE

VARIABLES sid, pc, regs
vars == <<sid, pc, regs>>
View == <<sid, pc>>

RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad(Append(s, Undef), n)
Put(d, v) == regs' = [Pad(regs, d) EXCEPT ![d] = v]

Init == /\ sid \in 1..NumSessions(TraceFile)
        /\ pc = 0
        /\ regs = <<>>

(* What was seen: an outcome with the denoted value, if its representation *)
(* is well formed.                                                         *)
Seen(o) == IF o[1] = "ok" THEN <<"ok", Abs(o[2])>> ELSE o
Formed(o) == o[1] = "ok" => WF(o[2])

Load(e) == /\ e[1] = "" /\ e[2] = "ld"
           /\ Put(e[6], Abs(e[5][1]))
Copy(e) == /\ e[1] = "" /\ e[2] = "cp"
           /\ Put(e[6], regs[e[4][1]])
(* Looking at a register again shows the value it holds. *)
Observe(e) == /\ e[1] = "" /\ e[2] = "obs"
              /\ Formed(e[7])
              /\ Seen(e[7]) = Ok(regs[e[4][1]])
              /\ UNCHANGED regs
Call(e) == /\ e[1] # ""
           /\ Formed(e[7])
           /\ LET a == [k \in 1..Len(e[4]) |-> regs[e[4][k]]]
                  c == [k \in 1..Len(e[5]) |-> Abs(e[5][k])]
                  o == Seen(e[7])
              IN  /\ Allowed(e[1], e[2], a, c, o)
                  /\ Put(e[6], IF o[1] = "ok" THEN o[2] ELSE Undef)

Next == \/ /\ pc < SessionLen(TraceFile, sid)
           /\ pc' = pc + 1
           /\ sid' = sid
           /\ LET e == EventAt(TraceFile, sid, pc + 1)
              IN  Load(e) \/ Copy(e) \/ Observe(e) \/ Call(e)
        \/ /\ pc = SessionLen(TraceFile, sid)
           /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars
=============================================================================
