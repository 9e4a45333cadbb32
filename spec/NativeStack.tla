---------------------------- MODULE NativeStack ----------------------------
(***************************************************************************)
(* Where the depth of the data is kept.  Reading, writing and destroying a *)
(* value are machines with two stacks: the native one, whose frames are    *)
(* calls in progress, and one of their own, on the heap.  The native stack *)
(* is to be one of a fixed set of short frame sequences however deep the   *)
(* value; its extent in bytes is then a function of that sequence only,    *)
(* and so at every callback of a given kind the extent observed must be    *)
(* the same at every depth.                                                *)
(*                                                                         *)
(* A value is <<"x">> (a scalar), <<"a", children>> or <<"o", children>>.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

FRAMES == {
  <<>>,
  <<"read">>, <<"read", "visit">>, <<"read", "child">>, <<"read", "finish">>,
  <<"read", "discard">>, <<"read", "discard", "destroy">>, <<"read", "discard", "destroy", "release">>,
  <<"write">>, <<"write", "begin">>, <<"write", "next">>, <<"write", "discard">>,
  <<"destroy">>, <<"destroy", "release">> }

Kids(v) == IF v[1] = "x" THEN <<>> ELSE v[2]
RECURSIVE Size(_)
Size(v) == 1 + FoldLeft(LAMBDA a, k : a + Size(k), 0, Kids(v))
RECURSIVE DepthOf(_)
DepthOf(v) == 1 + FoldLeft(LAMBDA a, k : IF DepthOf(k) > a THEN DepthOf(k) ELSE a, 0, Kids(v))

(* The tokens of a value: <<"x">>, <<"open", kind>>, <<"close">>.          *)
RECURSIVE Toks(_)
Toks(v) == IF v[1] = "x" THEN <<<<"x">>>>
           ELSE <<<<"open", v[1]>>>> \o FoldLeft(LAMBDA a, k : a \o Toks(k), <<>>, v[2]) \o <<<<"close">>>>

TopOf(s) == s[Len(s)]
Cut(s) == SubSeq(s, 1, Len(s) - 1)

(* ---- judging measurements -------------------------------------------- *)
(* A measurement: <<depth, outcome, most bytes of native stack, points>>,  *)
(* points <<callback, least extent, most extent>>.  Rarely taken paths of  *)
(* the allocator below a frame account for a few hundred bytes.            *)
SLACK == 4096

Expected(op, target, ending) ==
  CASE op = "read" -> IF ending = "complete" THEN "ok" ELSE IF ending = "panic" THEN "panic" ELSE "err"
    [] op = "write" -> IF ending = "panic" THEN "panic" ELSE "ok"
    [] op = "drop" -> IF target = "unwinding" THEN "panic" ELSE "ok"

Near(a, b) == a - b <= SLACK /\ b - a <= SLACK

Flat(runs) ==
  /\ \A j, k \in 1..Len(runs) : Near(runs[j][3], runs[k][3])
  /\ \A j, k \in 1..Len(runs) : \A p \in 1..Len(runs[j][4]), q \in 1..Len(runs[k][4]) :
       runs[j][4][p][1] = runs[k][4][q][1] =>
         /\ Near(runs[j][4][p][2], runs[k][4][q][3])
         /\ Near(runs[j][4][p][3], runs[k][4][q][2])

Measured(r) ==
  /\ Flat(r[5])
  /\ \A k \in 1..Len(r[5]) : r[5][k][2] = Expected(r[1], r[2], r[4])
=============================================================================
