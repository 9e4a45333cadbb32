---------------------------- MODULE DriverStream ----------------------------
(***************************************************************************)
(* The calls of a read or a write compared with the observed ones while    *)
(* they are made, for documents and values too wide to build the list of   *)
(* calls first: what Driver and Writer log at a step is matched against    *)
(* the observed log G and forgotten.  Agrees with Driver and Writer        *)
(* (InvStreamed in Trace_Driver and Trace_Writer).                         *)
(***************************************************************************)
EXTENDS Driver, Writer

EvMatch(want, got) ==
  IF want[1] = "float"
  THEN /\ Len(got) = 3 /\ got[1] = "float" /\ got[2] = want[2]
       /\ FloatMatch(want[3], want[4], want[5], Exact(want[4], want[5]), got[3])
  ELSE want = got

CallMatch(want, got) == IF want[1] = "begin" THEN got = SubSeq(want, 1, 2) ELSE got = want

(* p      calls of G accounted for       n      how many of them are calls *)
(* alive  builders or streams alive      st     "on": all agree so far;    *)
(*        "fault": the k-th call was made and fails; "cut": they differ    *)
FollowInit == [p |-> 0, n |-> 0, alive |-> <<>>, st |-> "on"]

Advance(f, e, k) ==
  LET n == IF e[1] = "drop" THEN f.n ELSE f.n + 1
      g == [f EXCEPT !.p = @ + 1, !.n = n] IN
  IF e[1] # "drop" /\ n = k THEN [g EXCEPT !.st = "fault"]
  ELSE CASE e[1] = "drop" -> [g EXCEPT !.alive = SubSeq(@, 1, Len(@) - 1)]
         [] e[1] \in {"seq", "map"} -> [g EXCEPT !.alive = Append(@, e[3])]
         [] e[1] = "begin" /\ e[3] = 1 -> [g EXCEPT !.alive = Append(@, e[2])]
         [] OTHER -> g

Follow(f, calls, G, k, M(_, _)) ==
  FoldLeft(LAMBDA x, e : IF x.st # "on" THEN x
                         ELSE IF x.p < Len(G) /\ M(e, G[x.p + 1]) THEN Advance(x, e, k)
                         ELSE [x EXCEPT !.st = "cut"], f, calls)

(* What is left of G is the destruction of all that is alive.              *)
RestUnwinds(f, G) ==
  /\ Len(G) - f.p = Len(f.alive)
  /\ \A j \in 1..Len(f.alive) : G[f.p + j] = <<"drop", f.alive[Len(f.alive) + 1 - j]>>

(* ---- reading ----------------------------------------------------------- *)
REvent(z, e, plan, G, k) ==
  LET d == DStep(z.d, plan, e) IN
  [z EXCEPT !.d = [d EXCEPT !.log = <<>>], !.f = Follow(z.f, d.log, G, k, EvMatch)]

REvents(z, t, plan, G, k) ==
  FoldLeft(LAMBDA a, e : REvent(a, e, plan, G, k), [z EXCEPT !.s = [t EXCEPT !.ev = <<>>]], t.ev)

(* mode: 0 no failure, 1 the k-th call fails with an error, 2 with a panic *)
ReadStreamed(text, plan, k, mode, G, outcome) ==
  LET at == IF mode = 0 THEN 0 ELSE k
      z == FoldLeft(LAMBDA a, c : REvents(a, Step(a.s, c), plan, G, at),
                    [s |-> TextInit, d |-> DriverInit(plan), f |-> FollowInit], text)
      y == REvents(z, Eof(z.s), plan, G, at)
      f == y.f
  IN /\ RestUnwinds(f, G)
     /\ CASE f.st = "fault" -> outcome = (IF mode = 1 THEN "err" ELSE "panic")
          [] f.st = "on" /\ y.s.m = "ok" -> outcome = "ok" \/ (y.s.may /\ outcome = "err")
          [] OTHER -> (y.s.m # "ok" \/ y.s.may) /\ outcome = "err"

(* ---- writing ----------------------------------------------------------- *)
WriteStreamed(flat, plan, k, mode, G, outcome) ==
  LET at == IF mode = 0 THEN 0 ELSE k
      z == FoldLeft(LAMBDA a, tok :
                      LET d == NStep(a.d, plan, tok) IN
                      [d |-> [d EXCEPT !.log = <<>>], f |-> Follow(a.f, d.log, G, at, CallMatch)],
                    [d |-> WriterInit, f |-> FollowInit], flat)
  IN /\ RestUnwinds(z.f, G)
     /\ IF z.f.st = "fault" THEN outcome = "panic"
        ELSE z.f.st = "on" /\ z.d.done /\ outcome = "ok"
=============================================================================
