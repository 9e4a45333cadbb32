---------------------------- MODULE Trace_Text ----------------------------
(***************************************************************************)
(* Validates recorded reads of texts into the untyped value:               *)
(* <<bytes, status, flat>>.                                                *)
(***************************************************************************)
EXTENDS Bulk, JsonText, Values

Run(bytes) == Eof(FoldLeft(Step, TextInit, bytes))

AcceptOK(s, status) == \/ status = "ok" /\ s.m = "ok"
                       \/ status = "err" /\ (s.m # "ok" \/ s.may)

(* P01: accepted if and only if a JSON text.                               *)
Accepts(r) == AcceptOK(Run(r[1]), r[2])

(* P02..P05: and if accepted, exactly this value.                          *)
Denotes(r) ==
  LET s == Run(r[1]) IN
  /\ AcceptOK(s, r[2])
  /\ r[2] = "ok" => FlatMatch(ValueOf(s.ev), r[3])

InvAccepts == Judge(Accepts(T[i]))
InvDenotes == Judge(Denotes(T[i]))
=============================================================================
