------------------------------- MODULE TraceIO -------------------------------
(***************************************************************************)
(* The recorded sessions: LoadTrace(file) is a sequence (one element per   *)
(* line of the file) of sequences of events.  Reading a file is not        *)
(* expressible in TLA+, so spec/java/TraceIO.java overrides these          *)
(* operators; the last three are overridden only so that TLC need not hold *)
(* the whole trace as one value.                                           *)
(***************************************************************************)
EXTENDS Sequences
LoadTrace(file) == CHOOSE t : TRUE
NumSessions(file) == Len(LoadTrace(file))
SessionLen(file, s) == Len(LoadTrace(file)[s])
EventAt(file, s, p) == LoadTrace(file)[s][p]
=============================================================================
