------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* How the writer drives the caller's values and streams.                  *)
(*                                                                         *)
(* A value is given by its flat tokens (see Values); node n is the n-th in *)
(* pre-order.  The calls:                                                  *)
(*   <<"begin",n>>   node n asked for its serialization                    *)
(*   <<"next",n,1>>  the stream of node n gave an item, or 0: its end      *)
(*   <<"drop",n>>    the stream of node n destroyed                        *)
(* In the specification begin carries a third component: whether it        *)
(* creates a stream.                                                       *)
(*                                                                         *)
(* A plan says how node n is handed over: 0 itself, 1 boxed, 2 optional,   *)
(* 3 boxed optional boxed, 4 (arrays) as the library's vector of nodes.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

PlanOf(plan, n) == plan[((n - 1) % Len(plan)) + 1]

WriterInit == [stk |-> <<>>, n |-> 0, log |-> <<>>, done |-> FALSE]
Note(d, e) == [d EXCEPT !.log = Append(@, e)]

(* A value is complete: so are the containers that waited for it only.     *)
RECURSIVE Settle(_)
Settle(d) ==
  IF d.stk = <<>> THEN [d EXCEPT !.done = TRUE]
  ELSE LET L == Len(d.stk)
           f == d.stk[L]
       IN IF f.left > 0 THEN d
          ELSE LET c == IF f.plain THEN d ELSE Note(Note(d, <<"next", f.n, 0>>), <<"drop", f.n>>)
               IN Settle([c EXCEPT !.stk = SubSeq(@, 1, L - 1)])

(* Ask the innermost container for its next item.                          *)
Fetch(d) ==
  IF d.stk = <<>> THEN d
  ELSE LET L == Len(d.stk)
           f == d.stk[L]
       IN [IF f.plain THEN d ELSE Note(d, <<"next", f.n, 1>>) EXCEPT !.stk[L].left = @ - 1]

NStep(d, plan, tok) ==
  IF tok[1] = "k" THEN d
  ELSE LET n == d.n + 1
           k == PlanOf(plan, n)
           plain == d.stk # <<>> /\ d.stk[Len(d.stk)].plain
           x == [Fetch(d) EXCEPT !.n = n]
       IN CASE tok[1] = "a" /\ k = 4 /\ n > 1 /\ ~plain ->
                 Settle([x EXCEPT !.stk = Append(@, [n |-> n, left |-> tok[2], plain |-> TRUE])])
            [] tok[1] \in {"a", "o"} ->
                 Settle([Note(x, <<"begin", n, 1>>) EXCEPT !.stk = Append(@, [n |-> n, left |-> tok[2], plain |-> FALSE])])
            [] tok[1] = "null" /\ k \in {2, 3} /\ n > 1 /\ ~plain -> Settle(x)
            [] OTHER -> Settle(Note(x, <<"begin", n, 0>>))

WriterCalls(flat, plan) == FoldLeft(LAMBDA d, tok : NStep(d, plan, tok), WriterInit, flat).log

IsWCall(e) == e[1] # "drop"
Streams(log) ==
  FoldLeft(LAMBDA a, e : CASE e[1] = "begin" /\ e[3] = 1 -> Append(a, e[2])
                           [] e[1] = "drop" -> SubSeq(a, 1, Len(a) - 1)
                           [] OTHER -> a, <<>>, log)
UnwindW(a) == [k \in 1..Len(a) |-> <<"drop", a[Len(a) + 1 - k]>>]

RECURSIVE NthWCall(_, _, _)
NthWCall(log, j, k) ==
  IF j > Len(log) THEN 0
  ELSE IF ~IsWCall(log[j]) THEN NthWCall(log, j + 1, k)
  ELSE IF k = 1 THEN j ELSE NthWCall(log, j + 1, k - 1)

(* The j-th call panics; a stream it was to create does not come to be.    *)
Panicked(log, j) == SubSeq(log, 1, j) \o UnwindW(Streams(SubSeq(log, 1, j - 1)))

(* ---- the rules of use, as an observer of the calls alone --------------- *)
(* live: streams alive <<n, ended>>; begun: nodes begun                     *)
WWatchInit == [live |-> <<>>, begun |-> {}, abort |-> FALSE, ok |-> TRUE]
WWatch(m, e) ==
  IF ~m.ok THEN m
  ELSE LET L == Len(m.live)
           t == m.live[L]
           bad == [m EXCEPT !.ok = FALSE]
       IN CASE e[1] = "begin" ->
                 IF m.abort \/ e[2] \in m.begun \/ (L > 0 /\ t[2]) THEN bad
                 ELSE [m EXCEPT !.begun = @ \cup {e[2]},
                                !.live = IF e[3] = 1 THEN Append(@, <<e[2], FALSE>>) ELSE @]
            [] e[1] = "next" ->
                 IF m.abort \/ L = 0 \/ t[1] # e[2] \/ t[2] THEN bad
                 ELSE [m EXCEPT !.live[L] = <<t[1], e[3] = 0>>]
            [] e[1] = "drop" ->
                 IF L = 0 \/ t[1] # e[2] THEN bad
                 ELSE [m EXCEPT !.live = SubSeq(@, 1, L - 1), !.abort = @ \/ ~t[2]]
            [] OTHER -> bad
=============================================================================
