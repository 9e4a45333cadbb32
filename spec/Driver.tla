------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* How the reader drives the caller's visitors and builders.               *)
(*                                                                         *)
(* Every place to be written and every builder has a number, counted in    *)
(* the order they come into being (the root place is 1).  The calls:       *)
(*   <<"null",p>> <<"bool",p,b>> <<"str",p,bytes>> <<"neg",p,digits>>      *)
(*   <<"nonneg",p,digits>> <<"float",p,..>>   a scalar put in place p      *)
(*   <<"seq",p,b>> <<"map",p,b>>   place p opened as builder b             *)
(*   <<"elem",b,p>> <<"key",b,bytes,p>>   b asked for its next place p     *)
(*   <<"end",b>>   b finished         <<"drop",b>>   b destroyed           *)
(*                                                                         *)
(* A plan gives each place a kind: 0 the caller's own visitor, 1 the       *)
(* ignoring visitor, 2 the untyped value, 3..6 the caller's type behind    *)
(* boxed/optional ones (4..6 absorb null).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, JsonText, Values

KindOf(plan, p) == plan[((p - 1) % Len(plan)) + 1]

DriverInit(plan) ==
  [stk |-> <<>>, p |-> 1, k |-> IF KindOf(plan, 1) \in {1, 2} THEN 0 ELSE KindOf(plan, 1),
   np |-> 1, nb |-> 0, skip |-> 0, log |-> <<>>]

Call(d, e) == [d EXCEPT !.log = Append(@, e)]
DepthOf(e) == CASE e[1] \in {"seq", "map"} -> 1 [] e[1] \in {"endseq", "endmap"} -> -1 [] OTHER -> 0

Inner(d) == d.stk[Len(d.stk)]
Ask(d, plan, e) ==
  LET p == d.np + 1 IN
  [Call(d, IF e[1] = "elem" THEN <<"elem", Inner(d), p>> ELSE <<"key", Inner(d), e[2], p>>)
    EXCEPT !.np = p, !.p = p, !.k = KindOf(plan, p)]

DStep(d, plan, e) ==
  IF d.skip > 0 THEN [d EXCEPT !.skip = @ + DepthOf(e)]
  ELSE CASE e[1] \in {"elem", "key"} -> Ask(d, plan, e)
         [] e[1] \in {"endseq", "endmap"} ->
              LET b == Inner(d) IN
              [Call(Call(d, <<"end", b>>), <<"drop", b>>) EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
         [] e[1] \in {"seq", "map"} ->
              IF d.k \in {1, 2} THEN [d EXCEPT !.skip = 1]
              ELSE [Call(d, <<e[1], d.p, d.nb + 1>>) EXCEPT !.nb = @ + 1, !.stk = Append(@, d.nb + 1)]
         [] OTHER ->
              IF d.k \in {1, 2} \/ (e[1] = "null" /\ d.k \in {4, 5, 6}) THEN d
              ELSE Call(d, <<e[1], d.p>> \o Tail(e))

(* All the calls a walk of these events makes, if nothing fails.           *)
CallsOf(events, plan) == FoldLeft(LAMBDA d, e : DStep(d, plan, e), DriverInit(plan), events).log

IsCall(e) == e[1] # "drop"

(* The builders alive after these calls, outermost first.                  *)
Alive(log) ==
  FoldLeft(LAMBDA a, e : CASE e[1] \in {"seq", "map"} -> Append(a, e[3])
                           [] e[1] = "drop" -> SubSeq(a, 1, Len(a) - 1)
                           [] OTHER -> a, <<>>, log)

(* Unwinding destroys them, innermost first.                               *)
Unwind(alive) == [k \in 1..Len(alive) |-> <<"drop", alive[Len(alive) + 1 - k]>>]

(* The calls up to the k-th, which fails; a builder it was to open does    *)
(* not come into being.                                                    *)
RECURSIVE NthCall(_, _, _)
NthCall(log, j, k) ==
  IF j > Len(log) THEN 0
  ELSE IF ~IsCall(log[j]) THEN NthCall(log, j + 1, k)
  ELSE IF k = 1 THEN j ELSE NthCall(log, j + 1, k - 1)

Faulted(log, j) ==
  SubSeq(log, 1, j) \o Unwind(Alive(SubSeq(log, 1, j - 1)))

(* ---- the rules of use, as an observer of the calls alone --------------- *)
(* live: builders alive, each <<b, place asked for and not yet written,    *)
(* finished>>; abort: unwinding has begun; ok: no rule broken so far       *)
WatchInit == [live |-> <<>>, root |-> FALSE, p |-> 1, b |-> 0, abort |-> FALSE, ok |-> TRUE]
WBad(m) == [m EXCEPT !.ok = FALSE]

Watch(m, e) ==
  IF ~m.ok THEN m
  ELSE
  LET L == Len(m.live)
      t == m.live[L]
      waiting(p) == IF L = 0 THEN p = 1 /\ ~m.root ELSE t[2] = p /\ ~t[3]
      write(x) == IF L = 0 THEN [x EXCEPT !.root = TRUE] ELSE [x EXCEPT !.live[L] = <<t[1], 0, FALSE>>]
  IN CASE e[1] = "drop" ->
            IF L = 0 \/ t[1] # e[2] THEN WBad(m)
            ELSE [m EXCEPT !.live = SubSeq(@, 1, L - 1), !.abort = @ \/ ~t[3]]
       [] e[1] \in {"elem", "key"} ->
            LET p == e[Len(e)] IN
            IF m.abort \/ L = 0 \/ t[1] # e[2] \/ t[3] \/ p <= m.p THEN WBad(m)
            ELSE [m EXCEPT !.live[L] = <<t[1], p, FALSE>>, !.p = p]
       [] e[1] = "end" ->
            IF m.abort \/ L = 0 \/ t[1] # e[2] \/ t[3] THEN WBad(m)
            ELSE [m EXCEPT !.live[L] = <<t[1], 0, TRUE>>]
       [] e[1] \in {"seq", "map"} ->
            IF m.abort \/ ~waiting(e[2]) \/ e[3] <= m.b THEN WBad(m)
            ELSE [write(m) EXCEPT !.live = Append(@, <<e[3], 0, FALSE>>), !.b = e[3]]
       [] e[1] \in {"null", "bool", "str", "neg", "nonneg", "float"} ->
            IF m.abort \/ ~waiting(e[2]) THEN WBad(m) ELSE write(m)
       [] OTHER -> WBad(m)     \* anything else the recorder saw: torn data, unfilled places

(* A call that opens a builder may fail, and the builder is then never     *)
(* seen again: f is the position of such a call, or 0.                     *)
WatchAll(log, f) ==
  LET keep == IF f # 0 /\ log[f][1] \in {"seq", "map"} THEN SubSeq(log, 1, f - 1) \o SubSeq(log, f + 1, Len(log)) ELSE log
  IN FoldLeft(Watch, WatchInit, keep)

ObeysRules(log, f) == LET m == WatchAll(log, f) IN m.ok /\ m.live = <<>>
=============================================================================
