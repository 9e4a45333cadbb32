----------------------------- MODULE Ownership -----------------------------
(***************************************************************************)
(* Who owns the values a read creates.  A value of a user type is born in  *)
(* a callback, dies once, and in between is either inside the reader or    *)
(* inside the result.  The reader keeps nothing: what is alive when the    *)
(* read returns is what the result holds, and that is nothing if the read  *)
(* failed.                                                                 *)
(*                                                                         *)
(* Values without size cannot be told apart; they are counted.             *)
(*                                                                         *)
(* An event is <<kind, id>>: 1 born, 2 died, 3 died without being alive,   *)
(* 4 a callback fails, 5 the read returns, 6/7 born/died without size.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

OwnInit == [alive |-> {}, dead |-> {}, z |-> 0, phase |-> "reading",
            failed |-> FALSE, wrong |-> FALSE]

CanBeBorn(o, id) == o.phase = "reading" /\ ~o.failed /\ id \notin o.alive \cup o.dead
CanDie(o, id) == id \in o.alive

(* held: the values in the result, in order; zheld: how many without size  *)
CanReturn(o, held, zheld) ==
  /\ o.phase = "reading"
  /\ o.alive = {held[k] : k \in 1..Len(held)}
  /\ Cardinality(o.alive) = Len(held)
  /\ o.z = zheld

Wrong(o) == [o EXCEPT !.wrong = TRUE]

OwnStep(o, e, held, zheld) ==
  IF o.wrong THEN o
  ELSE CASE e[1] = 1 -> IF CanBeBorn(o, e[2]) THEN [o EXCEPT !.alive = @ \cup {e[2]}] ELSE Wrong(o)
         [] e[1] = 2 -> IF CanDie(o, e[2]) THEN [o EXCEPT !.alive = @ \ {e[2]}, !.dead = @ \cup {e[2]}] ELSE Wrong(o)
         [] e[1] = 3 -> Wrong(o)
         [] e[1] = 4 -> IF o.failed THEN Wrong(o) ELSE [o EXCEPT !.failed = TRUE]
         [] e[1] = 5 -> IF CanReturn(o, held, zheld) THEN [o EXCEPT !.phase = "returned"] ELSE Wrong(o)
         [] e[1] = 6 -> IF o.phase = "reading" /\ ~o.failed THEN [o EXCEPT !.z = @ + 1] ELSE Wrong(o)
         [] e[1] = 7 -> IF o.z > 0 THEN [o EXCEPT !.z = @ - 1] ELSE Wrong(o)

(* The result has been released: nothing is left.                          *)
AllGone(o) == ~o.wrong /\ o.phase = "returned" /\ o.alive = {} /\ o.z = 0

(* If a destructor itself panics, values next to it may be forgotten; none *)
(* may be destroyed twice.                                                 *)
LooseStep(o, e) ==
  IF o.wrong THEN o
  ELSE CASE e[1] = 1 -> IF CanBeBorn(o, e[2]) THEN [o EXCEPT !.alive = @ \cup {e[2]}] ELSE Wrong(o)
         [] e[1] = 2 -> IF CanDie(o, e[2]) THEN [o EXCEPT !.alive = @ \ {e[2]}, !.dead = @ \cup {e[2]}] ELSE Wrong(o)
         [] e[1] = 3 -> Wrong(o)
         [] e[1] = 4 -> IF o.failed THEN Wrong(o) ELSE [o EXCEPT !.failed = TRUE]
         [] e[1] = 5 -> IF o.phase = "reading" THEN [o EXCEPT !.phase = "returned"] ELSE Wrong(o)
         [] e[1] = 6 -> IF o.phase = "reading" /\ ~o.failed THEN [o EXCEPT !.z = @ + 1] ELSE Wrong(o)
         [] e[1] = 7 -> IF o.z > 0 THEN [o EXCEPT !.z = @ - 1] ELSE Wrong(o)
=============================================================================
