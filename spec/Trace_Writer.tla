---------------------------- MODULE Trace_Writer ----------------------------
(***************************************************************************)
(* Validates recorded writes of the caller's own values:                   *)
(* <<"w", flat, plan, k, mode, log, outcome, nested, text>>                *)
(* where the k-th call panics if mode is 2.                                *)
(***************************************************************************)
EXTENDS Bulk, SequencesExt, DriverStream

S == INSTANCE Ser WITH ENV <- <<>>

WLogMatch(want, got) == Len(want) = Len(got) /\ \A j \in 1..Len(want) : CallMatch(want[j], got[j])

WFollows(r) ==
  LET calls == WriterCalls(r[2], r[3])
      j == IF r[5] = 0 THEN 0 ELSE NthWCall(calls, 1, r[4])
  IN IF j # 0
     THEN WLogMatch(Panicked(calls, j), r[6]) /\ r[7] = "panic"
     ELSE /\ WLogMatch(calls, r[6])
          /\ r[7] = "ok"
          /\ S!WritesAs(<<"value">>, r[2], r[9])
          /\ LET m == FoldLeft(WWatch, WWatchInit, calls) IN m.ok /\ m.live = <<>>

(* the same judgement, while the calls are made; and they agree            *)
WStreamed(r) ==
  /\ WriteStreamed(r[2], r[3], r[4], r[5], r[6], r[7])
  /\ r[7] = "ok" => S!WritesAs(<<"value">>, r[2], r[9])

InvWStreamed == Judge(WStreamed(T[i]))
InvWAgree == WStreamed(T[i]) = WFollows(T[i])

InvWFollows == Judge(WFollows(T[i]))
=============================================================================
