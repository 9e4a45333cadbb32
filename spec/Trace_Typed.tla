---------------------------- MODULE Trace_Typed ----------------------------
(***************************************************************************)
(* Validates recorded reads into Rust types:                               *)
(* <<type index, bytes, status, flat>>.                                    *)
(***************************************************************************)
EXTENDS Bulk, JsonText, SequencesExt

CONF == ndJsonDeserialize(IOEnv.CONF)[1]
TYPES == CONF.types
INSTANCE Typed WITH ENV <- CONF.env

Run(bytes) == Eof(FoldLeft(Step, TextInit, bytes))

Conforms(r) ==
  LET s == Run(r[2])
      v == IF s.m = "ok" THEN FoldLeft(VStep, TypedInit(TYPES[r[1]]), s.ev) ELSE TypedInit(<<"unit">>)
      fits == s.m = "ok" /\ ~v.bad
  IN \/ r[3] = "ok" /\ fits /\ v.done /\ TypedMatch(v.out, r[4])
     \/ r[3] = "err" /\ (~fits \/ s.may)

InvConforms == Judge(Conforms(T[i]))
=============================================================================
