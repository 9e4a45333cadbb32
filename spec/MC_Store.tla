------------------------------ MODULE MC_Store ------------------------------
(***************************************************************************)
(* All stores of two registers and few nodes, every operation from each of *)
(* them.  A history leading to each transition is printed, to be replayed  *)
(* with the real containers.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONF == ndJsonDeserialize(IOEnv.CONF)[1]
INSTANCE Store WITH LITS <- CONF.lits, KEYS <- CONF.keys, FLOATS <- CONF.floats
NODES == CONF.nodes

VARIABLES st, hist

Codes == 1..69
UsesA == {1, 8, 10, 13, 22, 28, 30, 40, 50, 51, 54}
UsesB == {13, 14, 15, 16, 21, 22, 25, 28, 29, 30, 34, 40, 41, 42, 46, 49, 51, 54, 69}
Paths == {<<>>, <<0>>, <<1>>, <<0, 0>>}

MInit == st = <<Null, Null>> /\ hist = <<>>

MNext == \E c \in Codes, r, s \in {0, 1} :
         \E p \in {q \in Paths : Has(st[r + 1], q)} :
         \E a \in (IF c \in {22, 28} THEN {0, 1} ELSE IF c \in UsesA THEN {CONF.few[k] : k \in 1..Len(CONF.few)} ELSE {0}), b \in (IF c \in UsesB THEN {0, 1, 2} ELSE {0}) :
           LET op == <<c, r, s, a, b>> \o p
               e == Apply(st, op)
           IN /\ e.app = 1
              /\ Size(e.st[1]) + Size(e.st[2]) <= NODES
              /\ st' = e.st
              /\ hist' = hist \o <<Len(op)>> \o op
              \* the registers are alike: printing one half will do
              /\ r = 0 => PrintT(ToString(<<"HIST", hist'>>))

RECURSIVE Good(_)
Good(v) == /\ IsO(v) => \A k \in 2..Len(v[2]) : BytesLess(v[2][k - 1][1], v[2][k][1], 1)
           /\ \A k \in 1..Len(Kids(v)) : Good(Kids(v)[k])

(* Objects stay ordered maps; texts tell values apart; the walk of the     *)
(* flat tokens gives the value back.                                       *)
Sane == /\ Good(st[1]) /\ Good(st[2])
        /\ (Flat(st[1]) = Flat(st[2])) <=> (st[1] = st[2])
        /\ (Debug(st[1]) = Debug(st[2])) <=> (st[1] = st[2])
        /\ (Json(st[1]) = Json(st[2])) => (Reread(st[1]) = Reread(st[2]))
Contents == st
=============================================================================
