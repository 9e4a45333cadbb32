-------------------------------- MODULE Ser --------------------------------
(***************************************************************************)
(* Writing: the text a value is serialized to.                             *)
(*                                                                         *)
(* A transducer over the flat tokens of the value (in iteration order; see *)
(* Typed and Values), one WStep per token, matched against the text as it  *)
(* goes: q is the position up to which the text is accounted for.  The     *)
(* text is determined except for the digits of a float, which may be any   *)
(* JSON number with a fraction or exponent whose nearest double is the     *)
(* value.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Typed, Runs

(* stk: open containers, q: next text position, ty: type of the next       *)
(* value, ok: the text agrees so far, done: the value is complete          *)
WriteInit(t) == [stk |-> <<>>, q |-> 1, ty |-> t, ok |-> TRUE, done |-> FALSE]

Lower(h) == IF h < 10 THEN 48 + h ELSE 87 + h

EscapedByte(b) ==
  CASE b = 34 -> <<92, 34>> [] b = 92 -> <<92, 92>>
    [] b = 8 -> <<92, 98>> [] b = 9 -> <<92, 116>> [] b = 10 -> <<92, 110>>
    [] b = 12 -> <<92, 102>> [] b = 13 -> <<92, 114>>
    [] b < 32 /\ b \notin {8, 9, 10, 12, 13} -> <<92, 117, 48, 48, 48 + (b \div 16), Lower(b % 16)>>
    [] OTHER -> <<b>>

LitBytes == [null |-> <<110, 117, 108, 108>>, true |-> <<116, 114, 117, 101>>,
             false |-> <<102, 97, 108, 115, 101>>]

(* Account for the bytes b in the text.                                    *)
Out(w, text, b) ==
  IF ~w.ok THEN w
  ELSE IF w.q + Len(b) - 1 <= Len(text) /\ SubSeq(text, w.q, w.q + Len(b) - 1) = b
       THEN [w EXCEPT !.q = @ + Len(b)]
       ELSE [w EXCEPT !.ok = FALSE]

OutString(w, text, s) ==
  Out(FoldLeft(LAMBDA x, b : Out(x, text, EscapedByte(b)), Out(w, text, <<34>>), s), text, <<34>>)

(* the same for a string given as runs (see Runs)                          *)
OutRuns(w, text, runs) ==
  Out(FoldLeft(LAMBDA x, r : Out(x, text, Times(FoldLeft(LAMBDA a, b : a \o EscapedByte(b), <<>>, r[1]), r[2])),
               Out(w, text, <<34>>), runs), text, <<34>>)

OutInt(w, text, neg, d) ==
  Out(w, text, (IF neg = 1 THEN <<45>> ELSE <<>>)
               \o (IF d = <<>> THEN <<48>> ELSE [k \in 1..Len(d) |-> d[k] + 48]))

RECURSIVE NumberEnd(_, _)
NumberEnd(text, k) ==
  IF k > Len(text) \/ ~(text[k] \in DIGIT \/ text[k] \in {43, 45, 46, 69, 101}) THEN k
  ELSE NumberEnd(text, k + 1)

OutFloat(w, text, f) ==
  IF ~w.ok THEN w
  ELSE IF f[3] = 0 THEN Out(w, text, LitBytes.null)
  ELSE LET e == NumberEnd(text, w.q)
           s == Eof(FoldLeft(Step, TextInit, SubSeq(text, w.q, e - 1)))
       IN IF /\ s.m = "ok"
             /\ Len(s.ev) = 1
             /\ s.ev[1][1] = "float"
             /\ s.ev[1][2] = f[2]
             /\ Within(s.ev[1][3], s.ev[1][4], f)
          THEN [w EXCEPT !.q = e]
          ELSE [w EXCEPT !.ok = FALSE]

(* A value is complete: go on with the container it is in.                 *)
RECURSIVE Complete(_, _)
Complete(w, text) ==
  IF w.stk = <<>> THEN [w EXCEPT !.done = TRUE]
  ELSE LET L == Len(w.stk)
           f == w.stk[L]
           left == f.left - 1
           pop == [w EXCEPT !.stk = SubSeq(@, 1, L - 1)]
           on == [w EXCEPT !.stk[L] = [f EXCEPT !.left = left]]
       IN CASE f.k \in {"v", "t"} ->
                 IF left = 0 THEN Complete(Out(pop, text, <<93>>), text)
                 ELSE Out([on EXCEPT !.ty = IF f.k = "v" THEN f.t ELSE f.t[3]], text, <<44>>)
            [] f.k = "m" ->
                 IF left = 0 THEN Complete(Out(pop, text, <<125>>), text)
                 ELSE Out(on, text, <<44>>)
            [] f.k = "st" ->
                 IF left = 0 THEN Complete(Out(pop, text, <<125>>), text)
                 ELSE LET j == Len(f.fs) - left + 1 IN
                      Out(OutString(Out([on EXCEPT !.ty = f.fs[j][3]], text, <<44>>), text, JsonName(f.fs[j])),
                          text, <<58>>)

PushW(w, f) == [w EXCEPT !.stk = Append(@, f)]

(* One token of the value.                                                 *)
WStep(w, text, tok) ==
  IF ~w.ok \/ w.done THEN [w EXCEPT !.ok = FALSE]
  ELSE
  LET t == Resolve(w.ty)
      scalar(x) == Complete(x, text)
  IN CASE tok[1] = "some" -> [w EXCEPT !.ty = t[2]]
       [] tok[1] = "box" -> [w EXCEPT !.ty = t[2]]
       [] tok[1] \in {"none", "unit", "null"} -> scalar(Out(w, text, LitBytes.null))
       [] tok[1] = "b" -> scalar(Out(w, text, IF tok[2] = 1 THEN LitBytes.true ELSE LitBytes.false))
       [] tok[1] \in {"n", "i"} -> scalar(OutInt(w, text, tok[2], tok[3]))
       [] tok[1] = "u" -> scalar(OutInt(w, text, 0, tok[2]))
       [] tok[1] = "f" -> scalar(OutFloat(w, text, tok))
       [] tok[1] = "s" -> scalar(OutString(w, text, tok[2]))
       [] tok[1] = "sr" -> scalar(OutRuns(w, text, tok[2]))
       [] tok[1] = "kr" -> Out(OutRuns([w EXCEPT !.ty = w.stk[Len(w.stk)].t], text, tok[2]), text, <<58>>)
       [] tok[1] = "e" -> scalar(OutString(w, text, JsonName(t[2][tok[2]])))
       [] tok[1] \in {"v", "a"} ->
            IF tok[2] = 0 THEN scalar(Out(w, text, <<91, 93>>))
            ELSE LET et == CASE t[1] = "vec" -> t[2] [] t[1] = "arr" -> t[3] [] OTHER -> <<"value">> IN
                 PushW([Out(w, text, <<91>>) EXCEPT !.ty = et], [k |-> "v", left |-> tok[2], t |-> et])
       [] tok[1] = "t" -> PushW([Out(w, text, <<91>>) EXCEPT !.ty = t[2]], [k |-> "t", left |-> 2, t |-> t])
       [] tok[1] \in {"m", "o"} ->
            IF tok[2] = 0 THEN scalar(Out(w, text, <<123, 125>>))
            ELSE PushW(Out(w, text, <<123>>),
                       [k |-> "m", left |-> tok[2], t |-> IF t[1] = "map" THEN t[3] ELSE <<"value">>])
       [] tok[1] = "k" ->
            LET f == w.stk[Len(w.stk)] IN
            Out(OutString([w EXCEPT !.ty = f.t], text, tok[2]), text, <<58>>)
       [] tok[1] = "st" ->
            LET fs == t[2] IN
            IF fs = <<>> THEN scalar(Out(w, text, <<123, 125>>))
            ELSE PushW(Out(OutString(Out([w EXCEPT !.ty = fs[1][3]], text, <<123>>), text, JsonName(fs[1])),
                           text, <<58>>),
                       [k |-> "st", left |-> Len(fs), fs |-> fs])

(* The text is exactly what the value is to be written as.                 *)
WritesAs(t, flat, text) ==
  LET w == FoldLeft(LAMBDA x, tok : WStep(x, text, tok), WriteInit(t), flat)
  IN w.ok /\ w.done /\ w.q = Len(text) + 1

(* ---- writing, abstractly: the events a reader of the text will see ----- *)
(* Used for round trips: the same walk, with events in place of bytes.     *)
EvInit(t) == [stk |-> <<>>, ty |-> t, ev |-> <<>>]
Say(w, e) == [w EXCEPT !.ev = Append(@, e)]

RECURSIVE EvComplete(_)
EvComplete(w) ==
  IF w.stk = <<>> THEN w
  ELSE LET L == Len(w.stk)
           f == w.stk[L]
           left == f.left - 1
           pop == [w EXCEPT !.stk = SubSeq(@, 1, L - 1)]
           on == [w EXCEPT !.stk[L] = [f EXCEPT !.left = left]]
       IN CASE f.k \in {"v", "t"} ->
                 IF left = 0 THEN EvComplete(Say(pop, <<"endseq">>))
                 ELSE Say([on EXCEPT !.ty = IF f.k = "v" THEN f.t ELSE f.t[3]], <<"elem">>)
            [] f.k = "m" -> IF left = 0 THEN EvComplete(Say(pop, <<"endmap">>)) ELSE on
            [] f.k = "st" ->
                 IF left = 0 THEN EvComplete(Say(pop, <<"endmap">>))
                 ELSE LET j == Len(f.fs) - left + 1 IN
                      Say([on EXCEPT !.ty = f.fs[j][3]], <<"key", JsonName(f.fs[j])>>)

EvStep(w, tok) ==
  LET t == Resolve(w.ty)
      scalar(e) == EvComplete(Say(w, e))
  IN CASE tok[1] \in {"some", "box"} -> [w EXCEPT !.ty = t[2]]
       [] tok[1] \in {"none", "unit", "null"} -> scalar(<<"null">>)
       [] tok[1] = "b" -> scalar(<<"bool", tok[2]>>)
       [] tok[1] \in {"n", "i"} -> scalar(IF tok[2] = 1 THEN <<"neg", tok[3]>> ELSE <<"nonneg", tok[3]>>)
       [] tok[1] = "u" -> scalar(<<"nonneg", tok[2]>>)
       [] tok[1] = "f" -> scalar(IF tok[3] = 0 THEN <<"null">> ELSE <<"double", tok>>)
       [] tok[1] = "s" -> scalar(<<"str", tok[2]>>)
       [] tok[1] = "e" -> scalar(<<"str", JsonName(t[2][tok[2]])>>)
       [] tok[1] \in {"v", "a"} ->
            IF tok[2] = 0 THEN EvComplete(Say(Say(w, <<"seq">>), <<"endseq">>))
            ELSE LET et == CASE t[1] = "vec" -> t[2] [] t[1] = "arr" -> t[3] [] OTHER -> <<"value">> IN
                 [Say(Say(w, <<"seq">>), <<"elem">>) EXCEPT !.ty = et, !.stk = Append(@, [k |-> "v", left |-> tok[2], t |-> et])]
       [] tok[1] = "t" -> [Say(Say(w, <<"seq">>), <<"elem">>) EXCEPT !.ty = t[2], !.stk = Append(@, [k |-> "t", left |-> 2, t |-> t])]
       [] tok[1] \in {"m", "o"} ->
            IF tok[2] = 0 THEN EvComplete(Say(Say(w, <<"map">>), <<"endmap">>))
            ELSE [Say(w, <<"map">>) EXCEPT !.stk = Append(@, [k |-> "m", left |-> tok[2], t |-> IF t[1] = "map" THEN t[3] ELSE <<"value">>])]
       [] tok[1] = "k" -> LET f == w.stk[Len(w.stk)] IN Say([w EXCEPT !.ty = f.t], <<"key", tok[2]>>)
       [] tok[1] = "st" ->
            LET fs == t[2] IN
            IF fs = <<>> THEN EvComplete(Say(Say(w, <<"map">>), <<"endmap">>))
            ELSE [Say(Say(w, <<"map">>), <<"key", JsonName(fs[1])>>)
                    EXCEPT !.ty = fs[1][3], !.stk = Append(@, [k |-> "st", left |-> Len(fs), fs |-> fs])]

EventsOf(t, flat) == FoldLeft(EvStep, EvInit(t), flat).ev
=============================================================================
