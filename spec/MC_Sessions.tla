----------------------------- MODULE MC_Sessions -----------------------------
(***************************************************************************)
(* Threads making calls that overlap, and calls made from inside           *)
(* callbacks.  One step is one callback of one thread; what happens        *)
(* between callbacks is the thread's own.  A team is one job per thread;   *)
(* a job is <<kind, text or value, plan, k, mode, nest>>, where nest lists *)
(* <<n, jobs>>: the jobs run inside the n-th callback.                     *)
(*                                                                         *)
(* Each complete schedule is printed, to be replayed against the code.     *)
(***************************************************************************)
EXTENDS Driver, Writer, TLC, Json, IOUtils

TEAMS == ndJsonDeserialize(IOEnv.CONF)

VARIABLES team, th, sched
vars == <<team, th, sched>>

(* What a call does when nothing else is going on.                         *)
Solo(job) ==
  CASE job[1] = "r" ->
         LET calls == CallsOf(Eof(FoldLeft(Step, TextInit, job[2])).ev, job[3])
             j == IF job[5] = 0 THEN 0 ELSE NthCall(calls, 1, job[4])
         IN IF j = 0 THEN calls ELSE Faulted(calls, j)
    [] job[1] = "w" ->
         LET calls == WriterCalls(job[2], job[3])
             j == IF job[5] = 0 THEN 0 ELSE NthWCall(calls, 1, job[4])
         IN IF j = 0 THEN calls ELSE Panicked(calls, j)
    [] job[1] = "v" -> <<>>

(* A thread: its calls in progress, innermost last, and those returned.    *)
Frame(job) == [job |-> job, todo |-> Solo(job), made |-> <<>>, n |-> 0, kids |-> <<>>]
KidsAt(job, n) ==
  IF \E x \in 1..Len(job[6]) : job[6][x][1] = n
  THEN job[6][CHOOSE x \in 1..Len(job[6]) : job[6][x][1] = n][2]
  ELSE <<>>

(* Everything up to the next callback.                                     *)
RECURSIVE Quiet(_)
Quiet(t) ==
  IF t.stk = <<>> THEN t
  ELSE LET L == Len(t.stk)
           f == t.stk[L]
       IN IF f.kids # <<>>
          THEN Quiet([t EXCEPT !.stk = Append([@ EXCEPT ![L].kids = Tail(@)], Frame(Head(f.kids)))])
          ELSE IF f.todo = <<>>
          THEN Quiet([t EXCEPT !.stk = SubSeq(@, 1, L - 1), !.ret = Append(@, <<f.job, f.made>>)])
          ELSE IF Head(f.todo)[1] = "drop"
          THEN Quiet([t EXCEPT !.stk[L].todo = Tail(@), !.stk[L].made = Append(@, Head(f.todo))])
          ELSE t

Callback(t) ==
  LET L == Len(t.stk)
      f == t.stk[L]
  IN Quiet([t EXCEPT !.stk[L] = [f EXCEPT !.todo = Tail(@), !.made = Append(@, Head(f.todo)),
                                          !.n = @ + 1, !.kids = KidsAt(f.job, f.n + 1)]])

Init == /\ team \in 1..Len(TEAMS)
        /\ th = [k \in 1..Len(TEAMS[team]) |-> Quiet([stk |-> <<Frame(TEAMS[team][k])>>, ret |-> <<>>])]
        /\ sched = <<>>

Next == \E k \in 1..Len(th) :
          /\ th[k].stk # <<>>
          /\ th' = [th EXCEPT ![k] = Callback(@)]
          /\ sched' = Append(sched, k)
          /\ UNCHANGED team

Done == \A k \in 1..Len(th) : th[k].stk = <<>>

(* No call shows that the others were there.                               *)
Independent ==
  \A k \in 1..Len(th) :
     /\ \A x \in 1..Len(th[k].ret) : th[k].ret[x][2] = Solo(th[k].ret[x][1])
     /\ \A x \in 1..Len(th[k].stk) : th[k].stk[x].made \o th[k].stk[x].todo = Solo(th[k].stk[x].job)

Emitted == Done => PrintT(ToString(<<"SCHED", team, sched>>))
=============================================================================
