----------------------------- MODULE MC_Context -----------------------------
(***************************************************************************)
(* Every word of at most LEN tokens between the two halves of a context:   *)
(* texts  pre w post.  A context is given as pieces <<bytes, count>>, so   *)
(* that it can be deep, wide or long.  The words the real reader accepts   *)
(* there are recorded; they must be exactly those the specification does.  *)
(*                                                                         *)
(* Whether a text is accepted does not depend on the events or on the      *)
(* contents of strings (Lean; checked by LeanIsExact in MC_Words), so the  *)
(* state after a long context stays small.                                 *)
(***************************************************************************)
EXTENDS JsonText, TLC, Json, IOUtils, SequencesExt, Integers

CONF == ndJsonDeserialize(IOEnv.CONF)[1]
TOKENS == CONF.tokens
LEN == CONF.len
CTX == CONF.contexts
REC == ndJsonDeserialize(IOEnv.TRACE)      \* <<context, word, status>>

LeanRun(s, bytes) == FoldLeft(LAMBDA a, c : Lean(Step(a, c)), s, bytes)
Pieces(s, pieces) ==
  FoldLeft(LAMBDA a, p : FoldLeft(LAMBDA b, k : LeanRun(b, p[1]), a, [k \in 1..p[2] |-> k]), s, pieces)

Before == [k \in 1..Len(CTX) |-> Pieces(TextInit, CTX[k].pre)]

Recorded == {<<REC[k][1], REC[k][2]>> : k \in 1..Len(REC)}

VARIABLES k, w, s
vars == <<k, w, s>>

CtxInit == k \in 1..Len(CTX) /\ w = <<>> /\ s = Before[k]
CtxNext == /\ Len(w) < LEN
           /\ s.m # "err"
           /\ \E t \in 1..Len(TOKENS) :
                /\ w' = Append(w, t)
                /\ s' = LeanRun(s, TOKENS[t])
                /\ k' = k

EndOf(x) == Eof(IF x.m = "err" THEN x ELSE Pieces(x, CTX[k].post))
End == EndOf(s)

(* accepted by both or by neither                                          *)
ConformsAccepts == (End.m = "ok" /\ ~End.may) => <<k, w>> \in Recorded
ConformsRefuses ==
  w = <<>> => \A j \in 1..Len(REC) :
                REC[j][1] = k => EndOf(FoldLeft(LAMBDA a, t : LeanRun(a, TOKENS[t]), s, REC[j][2])).m = "ok"
(* and the reader returned on every word                                   *)
ConformsReturns == w = <<>> => \A j \in 1..Len(REC) : REC[j][3] = "ok"
=============================================================================
