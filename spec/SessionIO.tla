----------------------------- MODULE SessionIO -----------------------------
(***************************************************************************)
(* Behaviours of the specification, written out for replay in the real     *)
(* library.  Emit(file, s) appends the session s (a sequence of events     *)
(* <<family, name, inplace, registers, constants, dest>>, the constants    *)
(* being abstract values) to the file and is TRUE.  Writing a file is not  *)
(* expressible in TLA+: spec/java/SessionIO.java overrides Emit.           *)
(***************************************************************************)
Emit(file, s) == TRUE
=============================================================================
