--------------------------- MODULE Trace_RunsSer ---------------------------
(***************************************************************************)
(* Validates recorded writes of untyped values with long strings:          *)
(* <<flat, status, text>>, the strings and the text given as runs.         *)
(***************************************************************************)
EXTENDS Bulk, SequencesExt

INSTANCE Ser WITH ENV <- <<>>

Plain(F) == [k \in 1..Len(F) |->
  CASE F[k][1] = "sr" -> <<"s", Unroll(F[k][2])>>
    [] F[k][1] = "kr" -> <<"k", Unroll(F[k][2])>>
    [] OTHER -> F[k]]

Written(r) ==
  LET text == Unroll(r[3])
      ok == r[2] = "ok" /\ WritesAs(<<"value">>, r[1], text)
  IN /\ Len(text) < 300 => Assert(WritesAs(<<"value">>, Plain(r[1]), text) = WritesAs(<<"value">>, r[1], text), "runs")
     /\ ok
InvWritten == Judge(Written(T[i]))
=============================================================================
