---------------------------- MODULE Trace_Store ----------------------------
(***************************************************************************)
(* Validates recorded histories of the untyped containers:                 *)
(* <<steps, final registers, blocks, bytes, outcome>>, a step being        *)
(* <<operation, applied, register r, register s, observation>>, or just    *)
(* <<operation>> where nothing was looked at.                              *)
(***************************************************************************)
EXTENDS Bulk

CONF == ndJsonDeserialize(IOEnv.CONF)[1]
INSTANCE Store WITH LITS <- CONF.lits, KEYS <- CONF.keys, FLOATS <- CONF.floats

Start == [ok |-> TRUE, st |-> [k \in 1..CONF.regs |-> <<"null">>]]

Do(h, step) ==
  IF ~h.ok THEN h
  ELSE LET e == Apply(h.st, step[1]) IN
       [st |-> e.st,
        ok |-> \/ Len(step) = 1
               \/ /\ e.app = step[2]
                  /\ Flat(e.st[step[1][2] + 1]) = step[3]
                  /\ Flat(e.st[step[1][3] + 1]) = step[4]
                  /\ e.obs = step[5]]

Conforms(r) ==
  LET h == FoldLeft(Do, Start, r[1])
  IN /\ r[5] = "ok" /\ h.ok
     /\ \A k \in 1..CONF.regs : Flat(h.st[k]) = r[2][k]
     /\ r[3] = 0 /\ r[4] = 0

InvConforms == Judge(Conforms(T[i]))
=============================================================================
