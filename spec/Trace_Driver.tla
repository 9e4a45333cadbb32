---------------------------- MODULE Trace_Driver ----------------------------
(***************************************************************************)
(* Validates recorded reads through the caller's own visitors:             *)
(* <<"r", text, plan, k, mode, log, outcome, nested>>                      *)
(* where the k-th call fails with an error (mode 1) or a panic (mode 2).   *)
(***************************************************************************)
EXTENDS Bulk, DriverStream

LogMatch(want, got) ==
  /\ Len(want) = Len(got)
  /\ \A j \in 1..Len(want) : EvMatch(want[j], got[j])

RECURSIVE Common(_, _, _)
Common(want, got, j) ==
  IF j > Len(want) \/ j > Len(got) \/ ~EvMatch(want[j], got[j]) THEN j - 1 ELSE Common(want, got, j + 1)

(* Part of the calls, then all that is alive is destroyed.                 *)
CutShort(calls, log) ==
  LET m == Common(calls, log, 1) IN
  SubSeq(log, m + 1, Len(log)) = Unwind(Alive(SubSeq(calls, 1, m)))

Follows(r) ==
  LET s == Eof(FoldLeft(Step, TextInit, r[2]))
      calls == CallsOf(s.ev, r[3])
      j == IF r[5] = 0 THEN 0 ELSE NthCall(calls, 1, r[4])
  IN \/ /\ j # 0
        /\ LogMatch(Faulted(calls, j), r[6])
        /\ r[7] = (IF r[5] = 1 THEN "err" ELSE "panic")
     \/ /\ j = 0
        /\ s.m = "ok"
        /\ LogMatch(calls, r[6])
        /\ r[7] = "ok"
     \/ /\ s.m # "ok" \/ s.may
        /\ CutShort(calls, r[6])
        /\ j # 0 => Len(SelectSeq(r[6], IsCall)) < r[4]   \* before the call that was to fail
        /\ r[7] = "err"

Position(r) == IF r[5] = 0 THEN 0 ELSE NthCall(r[6], 1, r[4])

(* the same judgement, while the calls are made; and they agree            *)
Streamed(r) == ReadStreamed(r[2], r[3], r[4], r[5], r[6], r[7])

StreamPosition(r) ==
  IF r[5] = 0 THEN 0
  ELSE FoldLeft(LAMBDA x, e : IF x.at # 0 THEN x
                              ELSE LET n == IF IsCall(e) THEN x.n + 1 ELSE x.n
                                   IN [n |-> n, j |-> x.j + 1, at |-> IF n = r[4] THEN x.j + 1 ELSE 0],
                [n |-> 0, j |-> 0, at |-> 0], r[6]).at
Obeys(r) == ObeysRules(r[6], StreamPosition(r))

InvStreamed == Judge(Streamed(T[i]) /\ Obeys(T[i]))
InvAgree == Streamed(T[i]) = Follows(T[i]) /\ StreamPosition(T[i]) = Position(T[i])

InvFollows == Judge(Follows(T[i]) /\ ObeysRules(T[i][6], Position(T[i])))
=============================================================================
