--------------------------- MODULE MC_TypedWords ---------------------------
(***************************************************************************)
(* Every word of at most LEN tokens, read into each of several types: the  *)
(* product of the text transducer and one typed machine per type, stepped  *)
(* incrementally.  Next to the machine for each type T run those for       *)
(* optional T and boxed T.                                                 *)
(*                                                                         *)
(* Checked on every word: the machines agree with the text on nesting, a   *)
(* rejection is final, optional and boxed are transparent, and a document  *)
(* that a type takes was recorded as taken by the real reader.  (The       *)
(* converse is checked by Trace_Typed on the same record file.)            *)
(***************************************************************************)
EXTENDS Integers, TLC, Json, IOUtils

CONF == ndJsonDeserialize(IOEnv.CONF)[1]
TYPES == CONF.types
TOKENS == CONF.tokens
LEN == CONF.len
INSTANCE TypedStream WITH ENV <- CONF.env

REC == ndJsonDeserialize(IOEnv.TRACE)
Accepted == {<<REC[k][1], REC[k][5]>> : k \in 1..Len(REC)}

VARIABLES w, s, v
vars == <<w, s, v>>

Machines(t) == <<TypedInit(t), TypedInit(<<"opt", t>>), TypedInit(<<"box", t>>)>>

TWInit == /\ w = <<>>
          /\ s = TextInit
          /\ v = [k \in 1..Len(TYPES) |-> Machines(TYPES[k])]

Feed(m, from, to) ==
  IF to < from THEN m
  ELSE FoldLeft(LAMBDA x, e : VStep(x, e), m, SubSeq(s'.ev, from, to))

TWNext == /\ Len(w) < LEN
          /\ s.m # "err"
          /\ \E k \in 1..Len(TYPES), j \in 1..3 : ~v[k][j].bad
          /\ \E t \in 1..Len(TOKENS) :
               /\ w' = Append(w, t)
               /\ s' = FoldLeft(Step, s, TOKENS[t])
               /\ v' = [k \in 1..Len(TYPES) |->
                          [j \in 1..3 |-> Feed(v[k][j], Len(s.ev) + 1, Len(s'.ev))]]

(* The machine m after the end of the input.                               *)
Ended(m) == FoldLeft(LAMBDA x, e : VStep(x, e), m, SubSeq(Eof(s).ev, Len(s.ev) + 1, Len(Eof(s).ev)))
Accepting == Eof(s).m = "ok"
Takes(m) == Accepting /\ ~Ended(m).bad

RECURSIVE Nesting(_)
Nesting(stk) == IF stk = <<>> THEN 0
                ELSE (IF Head(stk).k \in {"val", "ign"} THEN Head(stk).d ELSE 1) + Nesting(Tail(stk))

NestingAgrees ==
  s.m # "err" => \A k \in 1..Len(TYPES), j \in 1..3 :
                   ~v[k][j].bad => Nesting(v[k][j].stk) = Len(s.stk)

TakenIsDone ==
  \A k \in 1..Len(TYPES), j \in 1..3 : Takes(v[k][j]) => Ended(v[k][j]).done /\ Ended(v[k][j]).stk = <<>>

RejectionIsFinal ==
  [][\A k \in 1..Len(TYPES), j \in 1..3 : v[k][j].bad => v'[k][j].bad]_vars

(* P07 on the specification itself.                                        *)
Transparent ==
  Accepting =>
  \A k \in 1..Len(TYPES) :
    LET plain == Ended(v[k][1])
        opt == Ended(v[k][2])
        box == Ended(v[k][3])
    IN /\ Takes(v[k][3]) <=> Takes(v[k][1])
       /\ Takes(v[k][3]) => box.out = <<<<"box">>>> \o plain.out
       /\ IF Eof(s).ev = <<<<"null">>>>
          THEN Takes(v[k][2]) /\ opt.out = <<<<"none">>>>
          ELSE /\ Takes(v[k][2]) <=> Takes(v[k][1])
               /\ Takes(v[k][2]) => opt.out = <<<<"some">>>> \o plain.out

(* the value compared on the fly is the value built (used by               *)
(* Trace_TypedStream): the value itself agrees, a shortened or altered one *)
(* does not                                                                *)
RECURSIVE Core(_)
Core(t) == IF t[1] \in {"opt", "box"} THEN Core(t[2]) ELSE IF t[1] = "ref" THEN Core(CONF.env[t[2]]) ELSE t[1]

DrainedIsExact ==
  (Accepting /\ ~Eof(s).may) =>
  \A k \in 1..Len(TYPES) :
    LET f == Ended(v[k][1]).out
        bytes == FlattenSeq([n \in 1..Len(w) |-> TOKENS[w[n]]])
        heads == {n \in 1..Len(f) : f[n][1] \in {"v", "m"}}
        p0 == IF Core(TYPES[k]) \in {"vec", "arr", "map"} /\ heads # {}
              THEN CHOOSE n \in heads : \A j \in heads : n <= j ELSE 0
        z(F) == TypedStreamed(TYPES[k], bytes, F, IF p0 = 0 THEN 0 ELSE 1, p0)
    IN (Takes(v[k][1]) /\ \A n \in 1..Len(f) : f[n][1] \notin {"fi", "ft", "fr", "fd"})
       => LET y == z(f) IN
          y.asc => /\ y.same
                   /\ ~z(Front1(f)).same
                   /\ ~z(Append(f, <<"none">>)).same
                   /\ \A n \in 1..Len(f) : ~z([f EXCEPT ![n] = <<"v", 9>>]).same

(* the real reader takes what the specification takes                      *)
Conforms == \A k \in 1..Len(TYPES) : (Takes(v[k][1]) /\ ~Eof(s).may) => <<k, w>> \in Accepted
=============================================================================
