-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* Walks over the recorded traces of a file, one trace per state, in       *)
(* parallel strides.  A trace specification extends this module, defines   *)
(* what makes trace i a behaviour of the specification, and judges it in   *)
(* an invariant.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
STRIDE == 64

VARIABLE i

BulkInit == i \in 1..(IF N < STRIDE THEN N ELSE STRIDE)
BulkNext == i + STRIDE <= N /\ i' = i + STRIDE

(* A trace that is no behaviour of the specification is reported by its    *)
(* number and the walk goes on, so that one run lists all of them; the     *)
(* check fails if there is any such line.                                  *)
Judge(ok) == ok \/ PrintT(<<"BAD", i>>)
=============================================================================
