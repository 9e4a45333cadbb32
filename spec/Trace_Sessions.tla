--------------------------- MODULE Trace_Sessions ---------------------------
(***************************************************************************)
(* Validates calls that follow, contain or overlap one another:            *)
(* <<session records, order of callbacks, schedule>>.  Each session must   *)
(* be a behaviour of the specification of a single call; nothing else may  *)
(* show.  Where a schedule was prescribed, the threads made their          *)
(* callbacks in exactly that order.                                        *)
(***************************************************************************)
EXTENDS Trace_Driver, Trace_Writer, Trace_Text

(* A value as the text written for it is read: nothing tells a zero that   *)
(* was read with a sign from one without.                                  *)
Plain(x) == IF x[1] = "i" /\ x[3] = <<>> THEN <<"u", <<>>>> ELSE x

SessionOK(r) ==
  CASE r[1] = "r" -> Follows(r) /\ ObeysRules(r[6], Position(r))
    [] r[1] = "w" -> WFollows(r)
    [] r[1] = "v" -> Denotes(Tail(r))
    [] r[1] = "t" -> Denotes(<<r[2], "ok", [k \in DOMAIN r[3] |-> Plain(r[3][k])]>>)

SessionsOK(r) == /\ \A k \in 1..Len(r[1]) : SessionOK(r[1][k])
                 /\ r[2] = r[3]

InvSessions == Judge(SessionsOK(T[i]))
=============================================================================
