---------------------------- MODULE Trace_Derive ----------------------------
(***************************************************************************)
(* Validates what the compiler made of items carrying a derive: records    *)
(* <<item, compiled, names of its members as the compiled code knows them, *)
(* or <<>>>>.  Names read are a set (in ascending order), names written a  *)
(* sequence.                                                               *)
(***************************************************************************)
EXTENDS Bulk, Derive

CONF == ndJsonDeserialize(IOEnv.CONF)[1]

Sorted(q) == SetToSortSeq(Range(q), <)
As(t, r) == /\ (r[2] = 1) = Accept(t)
            /\ r[2] = 1 /\ Accept(t) => r[3] = (IF Trait(t) = Ser THEN Names(t) ELSE Sorted(Names(t)))
(* A recorded finding: an attribute on the item itself is as if not there. *)
Known(r) == CONF.known = 1 /\ IsSerde(ItemAttr(r[1])) /\ As([r[1] EXCEPT ![4] = 0], r)

Conforms(r) == As(r[1], r) \/ Known(r)

InvConforms == Judge(Conforms(T[i]))
=============================================================================
