------------------------- MODULE Trace_TypedStream -------------------------
(***************************************************************************)
(* Validates recorded reads of very wide documents into Rust types:        *)
(* <<type index, bytes, status, flat, depth of the wide container, where   *)
(* its header is in flat>>.                                                *)
(***************************************************************************)
EXTENDS Bulk

CONF == ndJsonDeserialize(IOEnv.CONF)[1]
TYPES == CONF.types
INSTANCE TypedStream WITH ENV <- CONF.env

Conforms(r) ==
  LET z == TypedStreamed(TYPES[r[1]], r[2], r[4], r[5], r[6])
  IN \/ r[3] = "ok" /\ Assert(z.asc \/ ~z.fits, "names do not ascend") /\ z.same
     \/ r[3] = "err" /\ (~z.fits \/ z.may)

InvConforms == Judge(Conforms(T[i]))
=============================================================================
