------------------------------ MODULE MC_Runs ------------------------------
(***************************************************************************)
(* After every word of at most LEN tokens: a run of up to 4 times a word   *)
(* of at most two tokens has the effect of its bytes one by one.           *)
(***************************************************************************)
EXTENDS Runs, TLC, Json, IOUtils

CONF == ndJsonDeserialize(IOEnv.CONF)[1]
TOKENS == CONF.tokens
LEN == CONF.len

VARIABLES w, s
RunsInit == w = <<>> /\ s = TextInit
RunsNext == /\ Len(w) < LEN
            /\ s.m # "err"
            /\ \E t \in 1..Len(TOKENS) : w' = Append(w, t) /\ s' = FoldLeft(Step, s, TOKENS[t])

RECURSIVE Plainly(_, _, _)
Plainly(x, b, n) == IF n = 0 THEN x ELSE Plainly(FoldLeft(Step, x, b), b, n - 1)

RunStepIsExact ==
  \A t \in 1..Len(TOKENS), u \in 0..Len(TOKENS), n \in 0..4 :
    LET b == TOKENS[t] \o (IF u = 0 THEN <<>> ELSE TOKENS[u]) IN
    RunStep(s, b, n) = Plainly(s, b, n)
=============================================================================
