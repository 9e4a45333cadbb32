------------------------------ MODULE MC_Driver ------------------------------
(***************************************************************************)
(* The reader and its caller as one transition system: every text over a   *)
(* token alphabet, fed token by token; after every call the callee may     *)
(* fail; unwinding destroys one builder at a time.                         *)
(*                                                                         *)
(* Checked in every state: the rules of use hold for the calls so far;     *)
(* nothing is called while unwinding; when the read returns every builder  *)
(* has been destroyed, once; what unwinding does step by step is what      *)
(* Trace_Driver expects of a recorded read.                                *)
(***************************************************************************)
EXTENDS Driver, FiniteSets, TLC, Json, IOUtils

CONF == ndJsonDeserialize(IOEnv.CONF)[1]
TOKENS == CONF.tokens
LEN == CONF.len
PLANS == {CONF.plans[k] : k \in 1..Len(CONF.plans)}

VARIABLES n,      \* tokens fed
          plan,   \* the places the caller offers
          s,      \* the text machine
          calls,  \* what has been called and destroyed so far
          alive,  \* builders alive, outermost first
          ph,     \* "read", "unwind", "ok", "err", "panic"
          why     \* what unwinding will end with
vars == <<n, plan, s, calls, alive, ph, why>>

Init == /\ n = 0 /\ plan \in PLANS /\ s = TextInit
        /\ calls = <<>> /\ alive = <<>> /\ ph = "read" /\ why = ""

Full == CallsOf(s.ev, plan)

(* The next call due, one at a time.                                       *)
DoCall == /\ ph = "read" /\ Len(calls) < Len(Full)
          /\ LET e == Full[Len(calls) + 1] IN
             /\ calls' = Append(calls, e)
             /\ alive' = Alive(calls')
          /\ UNCHANGED <<n, plan, s, ph, why>>

(* It fails instead: an opened builder does not come into being.           *)
FailCall == /\ ph = "read" /\ Len(calls) < Len(Full)
            /\ IsCall(Full[Len(calls) + 1])
            /\ calls' = Append(calls, Full[Len(calls) + 1])
            /\ ph' = "unwind" /\ why' \in {"err", "panic"}
            /\ UNCHANGED <<n, plan, s, alive>>

Caught == ph = "read" /\ Len(calls) = Len(Full)

Feed == /\ Caught /\ s.m # "err" /\ n < LEN
        /\ \E t \in 1..Len(TOKENS) : s' = FoldLeft(Step, s, TOKENS[t])
        /\ n' = n + 1
        /\ UNCHANGED <<plan, calls, alive, ph, why>>

Malformed == /\ Caught /\ s.m = "err"
             /\ ph' = "unwind" /\ why' = "err"
             /\ UNCHANGED <<n, plan, s, calls, alive>>

(* The end of the text, which may close a number or be malformed.          *)
End == /\ Caught /\ s.m \notin {"err", "ok"}
       /\ s' = Eof(s)
       /\ n' = LEN
       /\ UNCHANGED <<plan, calls, alive, ph, why>>

Return == /\ Caught /\ s.m = "ok"
          /\ ph' = "ok"
          /\ UNCHANGED <<n, plan, s, calls, alive, why>>

Destroy == /\ ph = "unwind" /\ alive # <<>>
           /\ calls' = Append(calls, <<"drop", alive[Len(alive)]>>)
           /\ alive' = SubSeq(alive, 1, Len(alive) - 1)
           /\ UNCHANGED <<n, plan, s, ph, why>>

GiveUp == /\ ph = "unwind" /\ alive = <<>>
          /\ ph' = why
          /\ UNCHANGED <<n, plan, s, calls, alive, why>>

Next == DoCall \/ FailCall \/ Feed \/ Malformed \/ End \/ Return \/ Destroy \/ GiveUp

(* ---- invariants ------------------------------------------------------ *)
(* the position of the call that failed: the last call, unless the text    *)
(* was at fault                                                            *)
LastCall == IF \E k \in 1..Len(calls) : IsCall(calls[k])
            THEN CHOOSE k \in 1..Len(calls) : IsCall(calls[k]) /\ \A j \in (k + 1)..Len(calls) : ~IsCall(calls[j])
            ELSE 0
FailedAt == IF why # "" /\ s.m # "err" /\ LastCall # 0 /\ calls[LastCall][1] \in {"seq", "map"}
               /\ ~(\E k \in 1..Len(alive) : alive[k] = calls[LastCall][3])
               /\ ~(\E k \in 1..Len(calls) : calls[k] = <<"drop", calls[LastCall][3]>>)
            THEN LastCall ELSE 0

Rules == WatchAll(calls, FailedAt).ok
NothingLeft == ph \in {"ok", "err", "panic"} => alive = <<>> /\ ObeysRules(calls, FailedAt)
OnceEach == \A k, j \in 1..Len(calls) : (calls[k][1] = "drop" /\ calls[k] = calls[j]) => k = j
AsExpected == ph \in {"err", "panic"} /\ s.m # "err"
                => calls = Faulted(Full, LastCall)
FinishedOnlyIfClosed ==
  \A k \in 1..Len(calls) : calls[k][1] = "end" =>
     Cardinality({j \in 1..Len(s.ev) : s.ev[j][1] \in {"endseq", "endmap"}}) >= Cardinality({j \in 1..k : calls[j][1] = "end"})
OkMeansWellFormed == ph = "ok" => s.m = "ok" /\ calls = Full
=============================================================================
