------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* The JSON reader as a byte-driven pushdown transducer.                   *)
(*                                                                         *)
(* The state is a record; Step(s, c) consumes one byte, Eof(s) ends the    *)
(* input.  The machine emits the calls a reader may make on the caller's   *)
(* visitors, in order:                                                     *)
(*   <<"null">> <<"bool", b>> <<"str", bytes>> <<"neg", digits>>           *)
(*   <<"nonneg", digits>> <<"float", neg, digits, exp10>>                  *)
(*   <<"seq">> <<"elem">> <<"endseq">> <<"map">> <<"key", bytes>>          *)
(*   <<"endmap">>                                                          *)
(* Events are emitted as early as the text allows ("elem" as soon as the   *)
(* text shows that an element must follow).  A reader is free to be lazier *)
(* than this on a text that turns out to be malformed, so on such a text   *)
(* the conformance rule is "a prefix of these events"; on a well-formed    *)
(* text the events are exactly these.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Decimal

WS == {32, 9, 10, 13}
DIGIT == 48..57

(* m    mode                          stk  open containers, "A" or "O"     *)
(* buf  decoded string so far / rest of a literal                          *)
(* key  the current string is a key   hn, hv, hi  hex digits read, their   *)
(*      value, pending high surrogate (0: none)                            *)
(* neg, ip, fp, es, ep  the number: sign, integer digits, fraction digits, *)
(*      exponent sign and digits                                           *)
(* ev   the events so far             may  a float in the overflow band    *)
(*      was read: the reader may also reject the text                      *)
TextInit == [m |-> "val", stk |-> <<>>, buf |-> <<>>, key |-> FALSE,
             hn |-> 0, hv |-> 0, hi |-> 0,
             neg |-> FALSE, ip |-> <<>>, fp |-> <<>>, es |-> 1, ep |-> <<>>,
             ev |-> <<>>, may |-> FALSE, over |-> FALSE]

Fail(s) == [s EXCEPT !.m = "err"]
Emit(s, e) == [s EXCEPT !.ev = Append(@, e)]
Pop(q) == SubSeq(q, 1, Len(q) - 1)
Top(q) == q[Len(q)]

(* ---- values --------------------------------------------------------- *)
LitTail(c) == CASE c = 110 -> <<117, 108, 108>>
                [] c = 116 -> <<114, 117, 101>>
                [] c = 102 -> <<97, 108, 115, 101>>
LitEvent(c) == CASE c = 110 -> <<"null">>
                 [] c = 116 -> <<"bool", 1>>
                 [] c = 102 -> <<"bool", 0>>

NumInit(s, mode, negative, digits) ==
  [s EXCEPT !.m = mode, !.neg = negative, !.ip = digits,
            !.fp = <<>>, !.es = 1, !.ep = <<>>]

BeginValue(s, c) ==
  CASE c = 34 -> [s EXCEPT !.m = "str", !.key = FALSE, !.buf = <<>>]
    [] c = 123 -> [s EXCEPT !.m = "obj0", !.stk = Append(@, "O"), !.ev = Append(@, <<"map">>)]
    [] c = 91 -> [s EXCEPT !.m = "arr0", !.stk = Append(@, "A"), !.ev = Append(@, <<"seq">>)]
    [] c = 45 -> NumInit(s, "neg", TRUE, <<>>)
    [] c = 48 -> NumInit(s, "zero", FALSE, <<>>)
    [] c \in 49..57 -> NumInit(s, "int", FALSE, <<c - 48>>)
    [] c \in {110, 116, 102} -> [s EXCEPT !.m = "lit", !.hv = c, !.buf = LitTail(c)]
    [] OTHER -> Fail(s)

CloseWith(s, kind, event) ==
  IF s.stk # <<>> /\ Top(s.stk) = kind
  THEN [s EXCEPT !.m = "after", !.stk = Pop(@), !.ev = Append(@, event)]
  ELSE Fail(s)

(* After a complete value.                                                 *)
After(s, c) ==
  CASE c \in WS -> [s EXCEPT !.m = "after"]
    [] s.stk = <<>> -> Fail(s)
    [] c = 44 -> IF Top(s.stk) = "A"
                 THEN [s EXCEPT !.m = "val", !.ev = Append(@, <<"elem">>)]
                 ELSE [s EXCEPT !.m = "key"]
    [] c = 93 -> CloseWith(s, "A", <<"endseq">>)
    [] c = 125 -> CloseWith(s, "O", <<"endmap">>)
    [] OTHER -> Fail(s)

(* ---- numbers -------------------------------------------------------- *)
(* Integer tokens are exact: a nonnegative one up to 2^64-1, a negative    *)
(* one down to -2^63; every other number is a float.                       *)
NumEvent(s) ==
  LET d == Strip(s.ip) IN
  IF s.fp = <<>> /\ s.ep = <<>> /\ ~s.neg /\ NatLeq(d, U64MAX) THEN <<"nonneg", d>>
  ELSE IF s.fp = <<>> /\ s.ep = <<>> /\ s.neg /\ NatLeq(d, I64MINABS) THEN <<"neg", d>>
  ELSE <<"float", IF s.neg THEN 1 ELSE 0, Strip(s.ip \o s.fp), s.es * ToInt(s.ep) - Len(s.fp)>>

FinishNumber(s) ==
  LET e == NumEvent(s) IN
  IF e[1] # "float" THEN [s EXCEPT !.m = "after", !.ev = Append(@, e)]
  ELSE LET dec == <<e[3], e[4]>> IN
       IF DecLeq(dec, F64SURE) THEN [s EXCEPT !.m = "after", !.ev = Append(@, e)]
       ELSE IF DecLeq(F64OVER, dec) THEN [Fail(s) EXCEPT !.over = TRUE]
       ELSE [s EXCEPT !.m = "after", !.ev = Append(@, e), !.may = TRUE]

NumberModes == {"zero", "int", "frac", "exp"}

StepNumber(s, c) ==
  CASE s.m = "neg" -> IF c = 48 THEN [s EXCEPT !.m = "zero"]
                      ELSE IF c \in 49..57 THEN [s EXCEPT !.m = "int", !.ip = <<c - 48>>]
                      ELSE Fail(s)
    [] s.m \in {"zero", "int"} ->
         (CASE c \in DIGIT -> IF s.m = "zero" THEN Fail(s) ELSE [s EXCEPT !.ip = Append(@, c - 48)]
            [] c = 46 -> [s EXCEPT !.m = "dot"]
            [] c \in {101, 69} -> [s EXCEPT !.m = "e"]
            [] OTHER -> LET t == FinishNumber(s) IN IF t.m = "err" THEN t ELSE After(t, c))
    [] s.m = "dot" -> IF c \in DIGIT THEN [s EXCEPT !.m = "frac", !.fp = <<c - 48>>] ELSE Fail(s)
    [] s.m = "frac" ->
         (CASE c \in DIGIT -> [s EXCEPT !.fp = Append(@, c - 48)]
            [] c \in {101, 69} -> [s EXCEPT !.m = "e"]
            [] OTHER -> LET t == FinishNumber(s) IN IF t.m = "err" THEN t ELSE After(t, c))
    [] s.m = "e" ->
         (CASE c = 43 -> [s EXCEPT !.m = "es"]
            [] c = 45 -> [s EXCEPT !.m = "es", !.es = -1]
            [] c \in DIGIT -> [s EXCEPT !.m = "exp", !.ep = <<c - 48>>]
            [] OTHER -> Fail(s))
    [] s.m = "es" -> IF c \in DIGIT THEN [s EXCEPT !.m = "exp", !.ep = <<c - 48>>] ELSE Fail(s)
    [] s.m = "exp" -> IF c \in DIGIT THEN [s EXCEPT !.ep = Append(@, c - 48)]
                      ELSE LET t == FinishNumber(s) IN IF t.m = "err" THEN t ELSE After(t, c)

(* ---- strings -------------------------------------------------------- *)
Utf8(cp) ==
  IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN <<192 + (cp \div 64), 128 + (cp % 64)>>
  ELSE IF cp < 65536 THEN <<224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + (cp \div 262144), 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>

HexVal(c) == IF c \in 48..57 THEN c - 48
             ELSE IF c \in 65..70 THEN c - 55
             ELSE IF c \in 97..102 THEN c - 87
             ELSE -1

EscapeOf(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47
                 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10
                 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1

EndString(s) == IF s.key THEN [s EXCEPT !.m = "colon", !.ev = Append(@, <<"key", s.buf>>)]
                ELSE [s EXCEPT !.m = "after", !.ev = Append(@, <<"str", s.buf>>)]

(* A complete code unit, possibly half of a surrogate pair.                *)
CodeUnit(s, v) ==
  IF s.hi = 0
  THEN IF v \in 55296..56319 THEN [s EXCEPT !.m = "lo1", !.hi = v]
       ELSE IF v \in 56320..57343 THEN Fail(s)
       ELSE [s EXCEPT !.m = "str", !.buf = @ \o Utf8(v)]
  ELSE IF v \in 56320..57343
       THEN [s EXCEPT !.m = "str", !.hi = 0,
                      !.buf = @ \o Utf8(65536 + (s.hi - 55296) * 1024 + (v - 56320))]
       ELSE Fail(s)

StepString(s, c) ==
  CASE s.m = "str" ->
         IF c = 34 THEN EndString(s)
         ELSE IF c = 92 THEN [s EXCEPT !.m = "esc"]
         ELSE IF c < 32 THEN Fail(s)
         ELSE [s EXCEPT !.buf = Append(@, c)]
    [] s.m = "esc" ->
         IF c = 117 THEN [s EXCEPT !.m = "hex", !.hn = 0, !.hv = 0, !.hi = 0]
         ELSE LET b == EscapeOf(c) IN
              IF b = -1 THEN Fail(s) ELSE [s EXCEPT !.m = "str", !.buf = Append(@, b)]
    [] s.m = "hex" ->
         LET h == HexVal(c) IN
         IF h = -1 THEN Fail(s)
         ELSE IF s.hn = 3 THEN CodeUnit(s, s.hv * 16 + h)
         ELSE [s EXCEPT !.hn = @ + 1, !.hv = @ * 16 + h]
    [] s.m = "lo1" -> IF c = 92 THEN [s EXCEPT !.m = "lo2"] ELSE Fail(s)
    [] s.m = "lo2" -> IF c = 117 THEN [s EXCEPT !.m = "hex", !.hn = 0, !.hv = 0] ELSE Fail(s)

(* ---- the machine ---------------------------------------------------- *)
StringModes == {"str", "esc", "hex", "lo1", "lo2"}
NumModes == {"neg", "zero", "int", "dot", "frac", "e", "es", "exp"}

Step(s, c) ==
  CASE s.m \in StringModes -> StepString(s, c)
    [] s.m = "err" -> s
    [] s.m = "after" -> After(s, c)
    [] s.m \in NumModes -> StepNumber(s, c)
    [] s.m = "val" -> IF c \in WS THEN s ELSE BeginValue(s, c)
    [] s.m = "arr0" -> IF c \in WS THEN s
                       ELSE IF c = 93 THEN CloseWith(s, "A", <<"endseq">>)
                       ELSE BeginValue(Emit(s, <<"elem">>), c)
    [] s.m = "obj0" -> IF c \in WS THEN s
                       ELSE IF c = 125 THEN CloseWith(s, "O", <<"endmap">>)
                       ELSE IF c = 34 THEN [s EXCEPT !.m = "str", !.key = TRUE, !.buf = <<>>]
                       ELSE Fail(s)
    [] s.m = "key" -> IF c \in WS THEN s
                      ELSE IF c = 34 THEN [s EXCEPT !.m = "str", !.key = TRUE, !.buf = <<>>]
                      ELSE Fail(s)
    [] s.m = "colon" -> IF c \in WS THEN s ELSE IF c = 58 THEN [s EXCEPT !.m = "val"] ELSE Fail(s)
    [] s.m = "lit" -> IF c # Head(s.buf) THEN Fail(s)
                      ELSE IF Len(s.buf) = 1
                           THEN [s EXCEPT !.m = "after", !.ev = Append(@, LitEvent(s.hv))]
                           ELSE [s EXCEPT !.buf = Tail(@)]

Eof(s) ==
  LET t == IF s.m \in NumberModes THEN FinishNumber(s)
           ELSE IF s.m = "arr0" THEN Emit(s, <<"elem">>)
           ELSE s
  IN IF t.m = "after" /\ t.stk = <<>> THEN [t EXCEPT !.m = "ok"] ELSE Fail(t)

(* Whether a text is accepted does not depend on the events or the         *)
(* contents of strings: what is left of a state when only that matters.    *)
Lean(s) == [s EXCEPT !.ev = <<>>, !.buf = IF s.m = "lit" THEN @ ELSE <<>>]
=============================================================================
