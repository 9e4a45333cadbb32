------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The value of a document compared with an observed one while the events  *)
(* come in, for documents too wide to build the value of first: in an      *)
(* array the flat tokens follow the events in order, and so they do in an  *)
(* object whose names ascend.  Agrees with Values (StreamIsExact in        *)
(* MC_Words).                                                              *)
(***************************************************************************)
EXTENDS Values, JsonText

(* p    next observed token       stk  open containers: kind, size         *)
(*                                     announced, members so far, last name*)
(* ok   all agrees so far         asc  all names ascend so far             *)
StreamInit == [p |-> 1, stk |-> <<>>, ok |-> TRUE, asc |-> TRUE]

Count(st) == IF st = <<>> THEN st ELSE [st EXCEPT ![Len(st)].c = @ + 1]
Open(kind, n) == [kind |-> kind, n |-> n, c |-> 0, last |-> <<>>]

Consume(x, e, F) ==
  IF ~x.ok THEN x
  ELSE CASE e[1] = "elem" -> x
         [] e[1] \in {"endseq", "endmap"} ->
              LET t == x.stk[Len(x.stk)] IN [x EXCEPT !.stk = Front1(@), !.ok = t.c = t.n]
         [] x.p > Len(F) -> [x EXCEPT !.ok = FALSE]
         [] e[1] = "seq" -> [x EXCEPT !.ok = F[x.p][1] = "a", !.p = @ + 1, !.stk = Append(Count(@), Open("a", F[x.p][2]))]
         [] e[1] = "map" -> [x EXCEPT !.ok = F[x.p][1] = "o", !.p = @ + 1, !.stk = Append(Count(@), Open("o", F[x.p][2]))]
         [] e[1] = "key" ->
              LET t == x.stk[Len(x.stk)] IN
              [x EXCEPT !.ok = F[x.p] = <<"k", e[2]>>, !.p = @ + 1, !.stk[Len(x.stk)].last = e[2],
                        !.asc = @ /\ (t.c = 0 \/ BytesLess(t.last, e[2], 1))]
         [] OTHER -> [x EXCEPT !.ok = TokenMatch(ScalarFlat(e)[1], F[x.p]), !.p = @ + 1, !.stk = Count(@)]

(* one byte: step, consume what it emits, forget it                        *)
StreamByte(z, c, F) ==
  LET t == Step(z.s, c) IN
  [s |-> [t EXCEPT !.ev = <<>>], x |-> FoldLeft(LAMBDA a, e : Consume(a, e, F), z.x, t.ev)]

StreamEnd(z, F) ==
  LET t == Eof(z.s)
      x == FoldLeft(LAMBDA a, e : Consume(a, e, F), z.x, t.ev)
  IN [m |-> t.m, asc |-> x.asc, ok |-> x.ok /\ x.p = Len(F) + 1 /\ x.stk = <<>>]

Streamed(bytes, F) == StreamEnd(FoldLeft(LAMBDA z, c : StreamByte(z, c, F), [s |-> TextInit, x |-> StreamInit], bytes), F)
=============================================================================
