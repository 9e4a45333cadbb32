----------------------------- MODULE Trace_Runs -----------------------------
(***************************************************************************)
(* Validates recorded reads of texts given as runs:                        *)
(* <<runs, status, flat>>; the strings of the value are runs as well,      *)
(* <<"sr", runs>> and <<"kr", runs>>.  An empty flat: only acceptance was  *)
(* recorded.                                                               *)
(***************************************************************************)
EXTENDS Bulk, Runs, Values

Unrolled(F) == [k \in 1..Len(F) |->
  CASE F[k][1] = "sr" -> <<"s", Unroll(F[k][2])>>
    [] F[k][1] = "kr" -> <<"k", Unroll(F[k][2])>>
    [] OTHER -> F[k]]

Denotes(r) ==
  LET s == RunText(r[1]) IN
  \/ r[2] = "ok" /\ s.m = "ok" /\ (r[3] # <<>> => FlatMatch(ValueOf(s.ev), Unrolled(r[3])))
  \/ r[2] = "err" /\ (s.m # "ok" \/ s.may)

InvDenotes == Judge(Denotes(T[i]))
=============================================================================
