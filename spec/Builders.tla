------------------------------ MODULE Builders ------------------------------
(***************************************************************************)
(* How the reader hands values around.  Every open container has a builder *)
(* with finished values and one place being filled (a vector or array: the *)
(* element; a map: the value of the current key; a struct: one place per   *)
(* field; a box: the place of the boxed value).  A value is here the set   *)
(* of the tracked values in it, so that a container, once closed, moves    *)
(* into its parent's place as a whole; whatever a place held before is     *)
(* destroyed.  An error or panic destroys the builders, innermost first.   *)
(*                                                                         *)
(* Which document causes the steps does not matter: they are taken in any  *)
(* order the builders allow, and a callback may fail at any point.         *)
(*                                                                         *)
(* This machine implements Ownership: the values in its places are the     *)
(* ones alive there, no value is ever in two places, and none is lost.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MAXID, DEPTH
NAMES == {1, 2}

VARIABLES stk, res, next, dead, mode
vars == <<stk, res, next, dead, mode>>

(* A frame: kind, finished values, places (by name), the place to fill (0:  *)
(* none requested), how many places were finished.                         *)
Frame(k) == [k |-> k, full |-> {}, at |-> [x \in NAMES |-> {}], cur |-> 0, n |-> 0]
Kinds == {"vec", "arr", "tup", "map", "struct", "box"}
Cap(k) == CASE k \in {"arr", "tup"} -> 2 [] k = "box" -> 1 [] OTHER -> 3

BInit == stk = <<>> /\ res = {} /\ next = 1 /\ dead = {} /\ mode = "reading"

L == Len(stk)
Top == stk[L]
(* There is a place that awaits a value.                                   *)
Awaits == mode = "reading" /\ (IF stk = <<>> THEN TRUE ELSE Top.cur # 0)

(* Put a value into the awaiting place of stack s (or the root).           *)
Into(s, r, ids) ==
  IF s = <<>> THEN [stk |-> s, res |-> ids, old |-> r]
  ELSE LET f == s[Len(s)] IN
       [stk |-> [s EXCEPT ![Len(s)] = [f EXCEPT !.at[f.cur] = ids, !.cur = 0]],
        res |-> r, old |-> f.at[f.cur]]

(* A leaf callback that works: a value is born and takes its place.        *)
Leaf == /\ Awaits /\ next <= MAXID
        /\ LET p == Into(stk, res, {next}) IN
           /\ stk' = p.stk /\ res' = p.res /\ dead' = dead \cup p.old
        /\ next' = next + 1
        /\ UNCHANGED mode

(* A value without tracked parts (null, a number, ...).                    *)
Plain == /\ Awaits
         /\ LET p == Into(stk, res, {}) IN
            /\ stk' = p.stk /\ res' = p.res /\ dead' = dead \cup p.old
         /\ UNCHANGED <<next, mode>>

OpenContainer == /\ Awaits /\ L < DEPTH
                 /\ \E k \in Kinds : stk' = Append(stk, [Frame(k) EXCEPT !.cur = IF k = "box" THEN 1 ELSE 0])
                 /\ UNCHANGED <<res, next, dead, mode>>

(* The next element or member is requested.  A vector, array or map first  *)
(* takes over what its place holds; if an array is full already, that      *)
(* fails, and the value in its place goes with the builder.                *)
Shifted(f) ==
  IF f.k \in {"vec", "arr", "map"}
  THEN [f EXCEPT !.full = @ \cup f.at[1], !.at[1] = {}]
  ELSE f

Request == /\ mode = "reading" /\ stk # <<>> /\ Top.cur = 0 /\ Top.k # "box"
           /\ Top.n < Cap(Top.k)
           /\ \E x \in (CASE Top.k = "struct" -> NAMES
                          [] Top.k = "tup" -> {Top.n + 1}
                          [] OTHER -> {1}) :
                stk' = [stk EXCEPT ![L] = [Shifted(Top) EXCEPT !.cur = x, !.n = @ + 1]]
           /\ UNCHANGED <<res, next, dead, mode>>

(* A map key seen before: the value it had is destroyed when the new one   *)
(* is taken over.                                                          *)
Replace == /\ mode = "reading" /\ stk # <<>> /\ Top.cur = 0 /\ Top.k = "map"
           /\ Top.full # {}
           /\ \E x \in Top.full : /\ dead' = dead \cup {x}
                                  /\ stk' = [stk EXCEPT ![L] = [Top EXCEPT !.full = @ \ {x}]]
           /\ UNCHANGED <<res, next, mode>>

All(f) == f.full \cup f.at[1] \cup f.at[2]

Finish == /\ mode = "reading" /\ stk # <<>> /\ Top.cur = 0
          /\ LET p == Into(SubSeq(stk, 1, L - 1), res, All(Top)) IN
             /\ stk' = p.stk /\ res' = p.res /\ dead' = dead \cup p.old
          /\ UNCHANGED <<next, mode>>

(* An error of the text, a rejected value, a failing or panicking callback *)
Fail == /\ mode = "reading"
        /\ mode' = "unwinding"
        /\ UNCHANGED <<stk, res, next, dead>>

(* The innermost builder goes, with all it holds.                          *)
Unwind == /\ mode = "unwinding" /\ stk # <<>>
          /\ dead' = dead \cup All(Top)
          /\ stk' = SubSeq(stk, 1, L - 1)
          /\ UNCHANGED <<res, next, mode>>

(* Failing in the end: what the root place may hold goes too.              *)
Refuse == /\ mode = "unwinding" /\ stk = <<>>
          /\ dead' = dead \cup res /\ res' = {}
          /\ mode' = "returned"
          /\ UNCHANGED <<stk, next>>

Return == /\ mode = "reading" /\ stk = <<>>
          /\ mode' = "returned"
          /\ UNCHANGED <<stk, res, next, dead>>

Release == /\ mode = "returned" /\ res # {}
           /\ dead' = dead \cup res /\ res' = {}
           /\ UNCHANGED <<stk, next, mode>>

BNext == Leaf \/ Plain \/ OpenContainer \/ Request \/ Replace \/ Finish
         \/ Fail \/ Unwind \/ Refuse \/ Return \/ Release

BSpec == BInit /\ [][BNext]_vars

(* ---- what is to hold -------------------------------------------------- *)
Places == {<<k, x>> : k \in 1..L, x \in {0} \cup NAMES}
Content(p) == IF p[2] = 0 THEN stk[p[1]].full ELSE stk[p[1]].at[p[2]]
Alive == (1..(next - 1)) \ dead

(* No value is in two places, and none that is dead is in any.             *)
OneOwner == /\ \A p, q \in Places : p # q => Content(p) \cap Content(q) = {}
            /\ \A p \in Places : Content(p) \cap res = {}
            /\ \A p \in Places : Content(p) \cap dead = {}
            /\ res \cap dead = {}

(* None is lost.                                                           *)
NoneLost == Alive = res \cup UNION {Content(p) : p \in Places}

(* After the return the result owns all there is; a refused read leaves    *)
(* nothing.                                                                *)
ResultOwnsAll == mode = "returned" => stk = <<>> /\ Alive = res

(* Death is for ever, and nothing is born once the reader gives up.        *)
Monotone == [][dead \subseteq dead' /\ (mode # "reading" => next' = next)]_vars
=============================================================================
