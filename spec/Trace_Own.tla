----------------------------- MODULE Trace_Own -----------------------------
(***************************************************************************)
(* Validates recorded histories of the values a read creates:              *)
(* <<type index, bytes, status, flat, fault, log, held, zheld, blocks,     *)
(* bytes of memory>>.  Without a fault the outcome is also what reading    *)
(* that text into that type means.                                         *)
(***************************************************************************)
EXTENDS Bulk, JsonText, Ownership, SequencesExt

CONF == ndJsonDeserialize(IOEnv.CONF)[1]
TYPES == CONF.types
INSTANCE Typed WITH ENV <- CONF.env

Run(bytes) == Eof(FoldLeft(Step, TextInit, bytes))

Outcome(r) ==
  LET s == Run(r[2])
      v == IF s.m = "ok" THEN FoldLeft(VStep, TypedInit(TYPES[r[1]]), s.ev) ELSE TypedInit(<<"unit">>)
      fits == s.m = "ok" /\ ~v.bad
  IN \/ r[3] = "ok" /\ fits /\ v.done /\ TypedMatch(v.out, r[4])
     \/ r[3] = "err" /\ (~fits \/ s.may)

Owned(r) == AllGone(FoldLeft(LAMBDA o, e : OwnStep(o, e, r[7], r[8]), OwnInit, r[6]))
Loose(r) == ~FoldLeft(LooseStep, OwnInit, r[6]).wrong

(* The fault came before the read returned.                                *)
During(r) == \E a, b \in 1..Len(r[6]) : r[6][a][1] = 4 /\ r[6][b][1] = 5 /\ a < b

Conforms(r) ==
  CASE r[5] = "none" -> Outcome(r) /\ Owned(r) /\ r[9] = 0 /\ r[10] = 0
    [] r[5] = "err" -> r[3] = "err" /\ Owned(r) /\ During(r) /\ r[9] = 0 /\ r[10] = 0
    [] r[5] = "panic" -> r[3] = "panic" /\ Owned(r) /\ During(r) /\ r[9] = 0 /\ r[10] = 0
    [] r[5] = "drop" -> r[3] \in (IF During(r) THEN {"panic"} ELSE {"ok"}) /\ Loose(r)

InvConforms == Judge(Conforms(T[i]))
=============================================================================
