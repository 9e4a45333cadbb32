---------------------------- MODULE TypedStream ----------------------------
(***************************************************************************)
(* A read into a type compared with an observed value while the events     *)
(* come in, for documents too wide to build the value of first.  One       *)
(* container, open at depth q, is emptied as it fills: what it holds is    *)
(* compared with the observed tokens that follow its header, and           *)
(* forgotten.  In a map the keys have to ascend.  At the end the rest of   *)
(* the value is compared with the rest of the observed tokens.  Agrees     *)
(* with Typed (DrainedIsExact in MC_TypedWords).                           *)
(***************************************************************************)
EXTENDS Typed, JsonText

(* v the typed machine   s the text   p next observed token of the segment *)
(* c members taken out of the map, the last one's key in last              *)
TSInit(t, p) == [s |-> TextInit, v |-> TypedInit(t), p |-> p, ok |-> TRUE, asc |-> TRUE, c |-> 0, last |-> <<>>]

Took(z, fl, F) ==
  [z EXCEPT !.p = @ + Len(fl),
            !.ok = @ /\ z.p + Len(fl) - 1 <= Len(F) /\ \A k \in 1..Len(fl) : TypedTokenMatch(fl[k], F[z.p + k - 1])]

Drain(z, q, F) ==
  LET L == Len(z.v.stk) IN
  IF L # q \/ q = 0 \/ z.v.bad THEN z
  ELSE LET f == z.v.stk[L] IN
       CASE f.k \in {"vec", "arr"} /\ f.f # <<>> -> [Took(z, f.f, F) EXCEPT !.v.stk[L].f = <<>>]
         [] f.k = "map" /\ f.ms # <<>> ->
              [Took(z, FlatMembers(f.ms), F) EXCEPT
                 !.v.stk[L].ms = <<>>, !.c = @ + 1, !.last = f.ms[1][1],
                 !.asc = @ /\ (z.c = 0 \/ BytesLess(z.last, f.ms[1][1], 1))]
         [] OTHER -> z

TSEvent(z, e, q, F) == Drain([z EXCEPT !.v = VStep(z.v, e)], q, F)

TSEvents(z, t, q, F) == FoldLeft(LAMBDA a, e : TSEvent(a, e, q, F), [z EXCEPT !.s = [t EXCEPT !.ev = <<>>]], t.ev)

(* p0: where in F the header of the emptied container is, 0 if there is none *)
TypedStreamed(t, bytes, F, q, p0) ==
  LET z == FoldLeft(LAMBDA a, c : TSEvents(a, Step(a.s, c), q, F), TSInit(t, p0 + 1), bytes)
      y == TSEvents(z, Eof(z.s), q, F)
      head == IF y.c = 0 \/ p0 = 0 THEN SubSeq(F, 1, p0)
              ELSE Append(SubSeq(F, 1, p0 - 1), <<F[p0][1], F[p0][2] - y.c>>)
      fits == y.s.m = "ok" /\ ~y.v.bad
  IN [fits |-> fits, may |-> y.s.may, asc |-> y.asc,
      same |-> fits /\ p0 <= Len(F) /\ y.v.done /\ y.ok /\ TypedMatch(y.v.out, head \o SubSeq(F, y.p, Len(F)))]
=============================================================================
