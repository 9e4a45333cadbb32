-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Texts as runs: pieces <<bytes, count>>, each piece repeated.  Long      *)
(* strings and long numbers are read run by run: RunStep has the effect of *)
(* count times the bytes in one go where the mode of the reader comes back *)
(* to what it was after one period.  MC_Runs checks that it is exactly     *)
(* that.                                                                   *)
(***************************************************************************)
EXTENDS JsonText, SequencesExt

Times(b, n) == IF Len(b) = 1 THEN LET x == b[1] IN [k \in 1..n |-> x]
               ELSE [k \in 1..(n * Len(b)) |-> b[((k - 1) % Len(b)) + 1]]
Unroll(runs) == FoldLeft(LAMBDA a, r : a \o Times(r[1], r[2]), <<>>, runs)

AreDigits(b) == \A k \in 1..Len(b) : b[k] \in DIGIT
Values10(b) == [k \in 1..Len(b) |-> b[k] - 48]

RECURSIVE RunStep(_, _, _)
RunStep(s, b, n) ==
  IF n = 0 \/ b = <<>> \/ s.m = "err" THEN s
  ELSE IF n = 1 THEN FoldLeft(Step, s, b)
  ELSE
  CASE s.m = "str" ->
         \* from here on only the string itself depends on what came before
         LET t == FoldLeft(Step, [s EXCEPT !.buf = <<>>], b) IN
         IF t.m = "str" /\ t.ev = s.ev THEN [t EXCEPT !.buf = s.buf \o Times(@, n)]
         ELSE RunStep(FoldLeft(Step, s, b), b, n - 1)
    [] s.m = "int" /\ AreDigits(b) -> [s EXCEPT !.ip = @ \o Times(Values10(b), n)]
    [] s.m = "frac" /\ AreDigits(b) -> [s EXCEPT !.fp = @ \o Times(Values10(b), n)]
    [] s.m = "exp" /\ AreDigits(b) -> [s EXCEPT !.ep = @ \o Times(Values10(b), n)]
    [] OTHER -> LET t == FoldLeft(Step, s, b) IN IF t = s THEN s ELSE RunStep(t, b, n - 1)

RunText(runs) == Eof(FoldLeft(LAMBDA a, r : RunStep(a, r[1], r[2]), TextInit, runs))
=============================================================================
