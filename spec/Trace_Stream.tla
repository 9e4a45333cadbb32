---------------------------- MODULE Trace_Stream ----------------------------
(***************************************************************************)
(* Validates recorded reads of very wide texts: <<bytes, status, flat>>.   *)
(***************************************************************************)
EXTENDS Bulk, Stream

Wide(r) == LET z == Streamed(r[1], r[3]) IN
           IF r[2] = "ok" THEN z.m = "ok" /\ Assert(z.asc \/ ~z.ok, "names do not ascend") /\ z.ok
           ELSE r[2] = "err" /\ z.m # "ok"

InvWide == Judge(Wide(T[i]))
=============================================================================
