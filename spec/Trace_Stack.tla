---------------------------- MODULE Trace_Stack ----------------------------
(***************************************************************************)
(* Validates measurements of native stack use:                             *)
(* <<operation, target, shape, ending, measurements>>.                     *)
(***************************************************************************)
EXTENDS Bulk, NativeStack
InvMeasured == Judge(Measured(T[i]))
=============================================================================
