------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The untyped value a walk of a document builds, as a flat sequence of    *)
(* tokens in pre-order (arity-annotated, hence uniquely decodable):        *)
(*   <<"null">> <<"b",0/1>> <<"u",digits>> <<"i",neg,digits>>              *)
(*   <<"fd",neg,digits,exp10>> <<"s",bytes>> <<"a",n>> <<"o",n>>           *)
(*   <<"k",bytes>>                                                         *)
(* An object holds its distinct names in byte order, each with the value   *)
(* given last.  Observed values have a float token in place of "fd":       *)
(*   <<"f",neg,finite,lo4,hi4,lomid,himid>>                                *)
(* the decimal interval of the reals within 4 ulp of the double, and of    *)
(* the reals that round to it.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Decimal

RECURSIVE BytesLess(_, _, _)
BytesLess(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] = b[i] THEN BytesLess(a, b, i + 1)
  ELSE a[i] < b[i]

(* members: sequence of <<key, flat>>; the last of equal keys wins.        *)
SortedMembers(ms) ==
  LET n == Len(ms)
      tagged == [k \in 1..n |-> <<ms[k][1], k>>]
      less(x, y) == IF x[1] = y[1] THEN x[2] < y[2] ELSE BytesLess(x[1], y[1], 1)
      st == SortSeq(tagged, less)
      keep == SelectSeq([k \in 1..n |-> <<st[k], k = n \/ st[k][1] # st[k + 1][1]>>], LAMBDA z : z[2])
  IN [k \in 1..Len(keep) |-> ms[keep[k][1][2]]]

FlatMembers(ms) == FoldLeft(LAMBDA acc, m : acc \o <<<<"k", m[1]>>>> \o m[2], <<>>, ms)

ObjectFlat(ms) == LET s == SortedMembers(ms) IN <<<<"o", Len(s)>>>> \o FlatMembers(s)

(* ---- the walk ------------------------------------------------------- *)
ValueInit == [stk |-> <<>>, out |-> <<>>]

Deliver(v, flat) ==
  IF v.stk = <<>> THEN [v EXCEPT !.out = flat]
  ELSE LET t == v.stk[Len(v.stk)] IN
       IF t.k = "a"
       THEN [v EXCEPT !.stk[Len(v.stk)] = [t EXCEPT !.n = @ + 1, !.f = @ \o flat]]
       ELSE [v EXCEPT !.stk[Len(v.stk)] = [t EXCEPT !.ms = Append(@, <<t.key, flat>>)]]

Front1(q) == SubSeq(q, 1, Len(q) - 1)

ScalarFlat(e) ==
  CASE e[1] = "null" -> <<<<"null">>>>
    [] e[1] = "bool" -> <<<<"b", e[2]>>>>
    [] e[1] = "str" -> <<<<"s", e[2]>>>>
    [] e[1] = "nonneg" -> <<<<"u", e[2]>>>>
    [] e[1] = "neg" -> <<<<"i", IF e[2] = <<>> THEN 0 ELSE 1, e[2]>>>>
    [] e[1] = "float" -> <<<<"fd", e[2], e[3], e[4]>>>>
    [] e[1] = "double" -> <<<<"fr", e[2]>>>>   \* written from this double

ValueStep(v, e) ==
  CASE e[1] = "seq" -> [v EXCEPT !.stk = Append(@, [k |-> "a", n |-> 0, f |-> <<>>])]
    [] e[1] = "map" -> [v EXCEPT !.stk = Append(@, [k |-> "o", ms |-> <<>>, key |-> <<>>])]
    [] e[1] = "elem" -> v
    [] e[1] = "key" -> [v EXCEPT !.stk[Len(v.stk)].key = e[2]]
    [] e[1] = "endseq" -> LET t == v.stk[Len(v.stk)] IN
                          Deliver([v EXCEPT !.stk = Front1(@)], <<<<"a", t.n>>>> \o t.f)
    [] e[1] = "endmap" -> LET t == v.stk[Len(v.stk)] IN
                          Deliver([v EXCEPT !.stk = Front1(@)], ObjectFlat(t.ms))
    [] OTHER -> Deliver(v, ScalarFlat(e))

ValueOf(events) == FoldLeft(ValueStep, ValueInit, events).out

(* ---- observed tokens against specified ones ------------------------- *)
Exact(d, x) == Len(d) <= 15 /\ x <= 22 /\ x >= -22

(* The double f stands for the decimal (neg, d * 10^x).                    *)
FloatMatch(neg, d, x, exact, f) ==
  /\ f[1] = "f" /\ f[2] = neg /\ f[3] = 1
  /\ LET dec == <<d, x>> IN
     IF exact THEN DecLeq(f[6], dec) /\ DecLeq(dec, f[7])
     ELSE DecLeq(f[4], dec) /\ DecLeq(dec, f[5])

(* A double, written and read back: within 4 ulp, of the same sign.        *)
BackMatch(w, f) ==
  /\ f[1] = "f" /\ f[2] = w[2] /\ f[3] = 1
  /\ DecLeq(f[4], w[7]) /\ DecLeq(w[6], f[5])

TokenMatch(want, got) ==
  CASE want[1] = "fd" -> got[1] = "f" /\ FloatMatch(want[2], want[3], want[4], Exact(want[3], want[4]), got)
    [] want[1] = "fr" -> BackMatch(want[2], got)
    [] OTHER -> want = got

FlatMatch(want, got) ==
  /\ Len(want) = Len(got)
  /\ \A k \in 1..Len(want) : TokenMatch(want[k], got[k])
=============================================================================
