----------------------------- MODULE Trace_Ser -----------------------------
(***************************************************************************)
(* Validates recorded writes and displays,                                 *)
(* <<type index, flat, status, text>>, and                                 *)
(* recorded round trips,                                                   *)
(* <<type index, flat before, status, flat after, text, text again>>.      *)
(***************************************************************************)
EXTENDS Bulk, SequencesExt

CONF == ndJsonDeserialize(IOEnv.CONF)[1]
TYPES == CONF.types
INSTANCE Ser WITH ENV <- CONF.env

(* P17, P19, P20 (P07, P09, P11, P12 for their types)                      *)
(* An untyped number displays as it is written; what has no number in JSON *)
(* as NaN, inf or -inf.                                                    *)
Shown(r) == IF r[2][1][1] = "f" /\ r[2][1][3] = 0
            THEN r[4] \in {<<78, 97, 78>>, <<105, 110, 102>>, <<45, 105, 110, 102>>}
            ELSE WritesAs(TYPES[r[1]], r[2], r[4])
Written(r) == \/ r[3] = "ok" /\ WritesAs(TYPES[r[1]], r[2], r[4])
              \/ r[3] = "shown" /\ Shown(r)
InvWritten == Judge(Written(T[i]))

(* P21: the value read is the one a walk over the written value builds in  *)
(* a place of its type, and rejected if that is.                           *)
Determined(flat) == \A k \in 1..Len(flat) : flat[k][1] \notin {"f", "m"}

RoundTrips(r) ==
  LET v == FoldLeft(VStep, TypedInit(TYPES[r[1]]), EventsOf(TYPES[r[1]], r[2])) IN
  \/ r[3] = "err" /\ v.bad
  \/ /\ r[3] = "ok"
     /\ ~v.bad /\ v.done
     /\ TypedMatch(v.out, r[4])
     /\ r[6] # <<>>
     /\ Determined(r[2]) => r[6] = r[5]
InvRoundTrips == Judge(RoundTrips(T[i]))
=============================================================================
