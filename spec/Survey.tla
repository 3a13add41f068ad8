------------------------------- MODULE Survey -------------------------------
(* Trace, except that the first event of a session which is not allowed is *)
(* printed and ends it: lists the deviating sessions (a development aid).  *)
EXTENDS Trace
Good(e) == IF e[1] # "" THEN /\ Formed(e[7])
                             /\ Allowed(e[1], e[2], [k \in 1..Len(e[4]) |-> regs[e[4][k]]], [k \in 1..Len(e[5]) |-> Abs(e[5][k])], Seen(e[7]))
           ELSE e[2] = "obs" => Formed(e[7]) /\ Seen(e[7]) = Ok(regs[e[4][1]])
SNext == LET len == SessionLen(TraceFile, sid)
             e == EventAt(TraceFile, sid, pc + 1)
         IN  /\ sid' = sid
             /\ IF pc >= len THEN UNCHANGED <<pc, regs>>
                ELSE IF Good(e)
                THEN /\ pc' = pc + 1
                     /\ CASE e[2] = "ld" -> Put(e[6], Abs(e[5][1]))
                          [] e[2] = "cp" -> Put(e[6], regs[e[4][1]])
                          [] e[2] = "obs" -> UNCHANGED regs
                          [] OTHER -> Put(e[6], IF e[7][1] = "ok" THEN Abs(e[7][2]) ELSE Undef)
                ELSE /\ PrintT(<<"BAD", sid, pc + 1>>)
                     /\ pc' = len
                     /\ UNCHANGED regs
=============================================================================
