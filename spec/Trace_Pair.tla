----------------------------- MODULE Trace_Pair -----------------------------
(***************************************************************************)
(* Two builds of the library in lockstep: the same calls, in the same      *)
(* order, observed in each.  Where the specification leaves a choice (the  *)
(* last digit of an inexact double, the shortest decimal of a written one) *)
(* the two must still have made the same one.                              *)
(* A record is <<call observed in the first build, in the second>>.        *)
(***************************************************************************)
EXTENDS Bulk
InvSame == Judge(T[i][1] = T[i][2])
=============================================================================
