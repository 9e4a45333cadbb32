------------------------------ MODULE MC_Writer ------------------------------
(***************************************************************************)
(* The writer and its caller as a transition system: all values of at most *)
(* LEN nodes, all plans given; every call may panic; unwinding destroys    *)
(* one stream at a time.  The value is chosen as it is asked for.          *)
(***************************************************************************)
EXTENDS Writer, TLC, Json, IOUtils, FiniteSets

CONF == ndJsonDeserialize(IOEnv.CONF)[1]
LEN == CONF.len
PLANS == {CONF.plans[k] : k \in 1..Len(CONF.plans)}

VARIABLES plan, flat, d, calls, alive, ph
vars == <<plan, flat, d, calls, alive, ph>>

Init == /\ plan \in PLANS /\ flat = <<>> /\ d = WriterInit
        /\ calls = <<>> /\ alive = <<>> /\ ph = "write"

(* nodes still owed to open containers                                     *)
Owed == FoldLeft(LAMBDA a, f : a + f.left, 0, d.stk)

Give == /\ ph = "write" /\ ~d.done /\ Len(calls) = Len(d.log)
        /\ \E tok \in {<<"null">>, <<"b", 1>>} \cup {<<c, m>> : c \in {"a", "o"}, m \in 0..(LEN - d.n - 1)} :
             LET owed == IF d.stk = <<>> THEN 0 ELSE Owed - 1
                 add == IF tok[1] \in {"a", "o"} THEN tok[2] ELSE 0
             IN /\ d.n + 1 + owed + add <= LEN
                /\ d' = NStep(d, plan, tok)
                /\ flat' = Append(flat, tok)
        /\ UNCHANGED <<plan, calls, alive, ph>>

DoCall == /\ ph = "write" /\ Len(calls) < Len(d.log)
          /\ calls' = Append(calls, d.log[Len(calls) + 1])
          /\ alive' = Streams(calls')
          /\ UNCHANGED <<plan, flat, d, ph>>

PanicCall == /\ ph = "write" /\ Len(calls) < Len(d.log)
             /\ IsWCall(d.log[Len(calls) + 1])
             /\ calls' = Append(calls, d.log[Len(calls) + 1])
             /\ ph' = "unwind"
             /\ UNCHANGED <<plan, flat, d, alive>>

Destroy == /\ ph = "unwind" /\ alive # <<>>
           /\ calls' = Append(calls, <<"drop", alive[Len(alive)]>>)
           /\ alive' = SubSeq(alive, 1, Len(alive) - 1)
           /\ UNCHANGED <<plan, flat, d, ph>>

GiveUp == ph = "unwind" /\ alive = <<>> /\ ph' = "panic" /\ UNCHANGED <<plan, flat, d, calls, alive>>
Return == ph = "write" /\ d.done /\ Len(calls) = Len(d.log) /\ ph' = "ok" /\ UNCHANGED <<plan, flat, d, calls, alive>>

Next == Give \/ DoCall \/ PanicCall \/ Destroy \/ GiveUp \/ Return

(* ---- invariants ------------------------------------------------------ *)
LastW == IF \E k \in 1..Len(calls) : IsWCall(calls[k])
        THEN CHOOSE k \in 1..Len(calls) : IsWCall(calls[k]) /\ \A j \in (k + 1)..Len(calls) : ~IsWCall(calls[j])
        ELSE 0
Seen == IF ph \in {"unwind", "panic"} /\ LastW # 0 /\ calls[LastW][1] = "begin"
        THEN [calls EXCEPT ![LastW] = <<"begin", calls[LastW][2], 0>>] ELSE calls
Rules == FoldLeft(WWatch, WWatchInit, Seen).ok
NothingLeft == ph \in {"ok", "panic"} => alive = <<>> /\ FoldLeft(WWatch, WWatchInit, Seen).live = <<>>
AsExpected == ph = "panic" => calls = Panicked(WriterCalls(flat, plan), LastW)
AllAsked == ph = "ok" => calls = WriterCalls(flat, plan)
EndOnce == \A k, j \in 1..Len(calls) : calls[k][1] = "next" /\ calls[k][3] = 0 /\ calls[j] = calls[k] => k = j
=============================================================================
