------------------------------ MODULE MC_Words ------------------------------
(***************************************************************************)
(* Every word of at most LEN tokens over a token alphabet, as a tree: the  *)
(* transducer's state after each word, stepped incrementally.  Dead        *)
(* prefixes are not extended (the transducer never leaves "err").          *)
(*                                                                         *)
(* Checked on every word: the transducer agrees with the declarative       *)
(* grammar, its structural invariants hold, and -- the conformance half -- *)
(* whenever it accepts, the real reader was recorded as accepting.  (The   *)
(* converse, that every recorded acceptance is one of the specification's, *)
(* is checked by Trace_Text on the same record file.)                      *)
(***************************************************************************)
EXTENDS JsonText, Grammar, Stream, TLC, Json, IOUtils, SequencesExt

CONF == ndJsonDeserialize(IOEnv.CONF)[1]
TOKENS == CONF.tokens
LEN == CONF.len
REC == ndJsonDeserialize(IOEnv.TRACE)
Accepted == {REC[k][4] : k \in 1..Len(REC)}

VARIABLES w, s
vars == <<w, s>>

WordsInit == w = <<>> /\ s = TextInit
WordsNext == /\ Len(w) < LEN
             /\ s.m # "err"
             /\ \E t \in 1..Len(TOKENS) :
                  /\ w' = Append(w, t)
                  /\ s' = FoldLeft(Step, s, TOKENS[t])

Text(x) == FoldLeft(LAMBDA a, t : a \o TOKENS[t], <<>>, x)
Accepting == Eof(s).m = "ok"

(* the transducer is the grammar, but for numbers beyond the finite range  *)
GrammarAgrees == /\ Accepting => IsJson(Text(w))
                 /\ IsJson(Text(w)) => Accepting \/ Eof(s).over

(* the events are a walk: containers open and close properly nested, every *)
(* value sits in a requested place                                         *)
RECURSIVE Walk(_, _, _)
Walk(ev, st, need) ==
  \* st: open containers; need: a place is waiting for its value
  IF ev = <<>> THEN <<st, need>>
  ELSE LET e == Head(ev)[1] IN
       CASE e \in {"null", "bool", "str", "neg", "nonneg", "float"} ->
              IF need THEN Walk(Tail(ev), st, FALSE) ELSE <<"bad">>
         [] e = "seq" -> IF need THEN Walk(Tail(ev), Append(st, "A"), FALSE) ELSE <<"bad">>
         [] e = "map" -> IF need THEN Walk(Tail(ev), Append(st, "O"), FALSE) ELSE <<"bad">>
         [] e = "elem" -> IF ~need /\ st # <<>> /\ Top(st) = "A" THEN Walk(Tail(ev), st, TRUE) ELSE <<"bad">>
         [] e = "key" -> IF ~need /\ st # <<>> /\ Top(st) = "O" THEN Walk(Tail(ev), st, TRUE) ELSE <<"bad">>
         [] e = "endseq" -> IF ~need /\ st # <<>> /\ Top(st) = "A" THEN Walk(Tail(ev), Pop(st), FALSE) ELSE <<"bad">>
         [] e = "endmap" -> IF ~need /\ st # <<>> /\ Top(st) = "O" THEN Walk(Tail(ev), Pop(st), FALSE) ELSE <<"bad">>

EventsAreAWalk ==
  LET r == Walk(s.ev, <<>>, TRUE) IN
  /\ r # <<"bad">>
  /\ Accepting => Walk(Eof(s).ev, <<>>, TRUE) = <<<<>>, FALSE>>

(* acceptance can be decided without the events (used by MC_Context)       *)
LeanIsExact == LET z == Eof(FoldLeft(LAMBDA a, c : Lean(Step(a, c)), TextInit, Text(w))) IN
               z.m = Eof(s).m /\ z.may = Eof(s).may

(* the value compared on the fly is the value built (used by Trace_Stream):*)
(* the value itself agrees, a shortened or altered one does not            *)
StreamIsExact ==
  (Accepting /\ \A n \in 1..Len(Eof(s).ev) : Eof(s).ev[n][1] # "float") =>
    LET f == ValueOf(Eof(s).ev)
        z == Streamed(Text(w), f)
    IN z.asc => /\ z.m = "ok" /\ z.ok
                /\ ~Streamed(Text(w), Front1(f)).ok
                /\ ~Streamed(Text(w), Append(f, <<"null">>)).ok
                /\ \A n \in 1..Len(f) : ~Streamed(Text(w), [f EXCEPT ![n] = <<"a", 9>>]).ok

(* the real reader accepts what the specification accepts                  *)
Conforms == (Accepting /\ ~Eof(s).may) => w \in Accepted
=============================================================================
