--------------------------- MODULE MC_NativeStack ---------------------------
(***************************************************************************)
(* All values of at most LEN nodes: read (with a failure at any call),     *)
(* written (likewise) and destroyed, call by call.                         *)
(***************************************************************************)
EXTENDS NativeStack, TLC, Json, IOUtils

CONF == ndJsonDeserialize(IOEnv.CONF)[1]
LEN == CONF.len

RECURSIVE Forests(_)
RECURSIVE ValuesOf(_)
ValuesOf(n) == IF n = 1 THEN {<<"x">>, <<"a", <<>>>>, <<"o", <<>>>>}
               ELSE {<<k, f>> : k \in {"a", "o"}, f \in Forests(n - 1)}
Forests(n) == IF n = 0 THEN {<<>>}
              ELSE UNION {{<<v>> \o f : v \in ValuesOf(k), f \in Forests(n - k)} : k \in 1..n}

VARIABLES op, val, in, native, work, pile, made, freed, ph
vars == <<op, val, in, native, work, pile, made, freed, ph>>
(* in: tokens not read yet; work: the machine's own stack -- open layers   *)
(* <<kind, children so far>> when reading, rests of children when writing; *)
(* pile: values about to be destroyed; made, freed: how many nodes.        *)

Init == /\ op \in {"read", "write"}
        /\ \E n \in 1..LEN : val \in ValuesOf(n)
        /\ in = IF op = "read" THEN Toks(val) ELSE <<>>
        /\ native = <<>> /\ work = <<>> /\ pile = <<>>
        /\ made = (IF op = "read" THEN 0 ELSE Size(val)) /\ freed = 0
        /\ ph = "start"

Call(f) == native' = Append(native, f)
Return == native' = Cut(native)
In(f) == native # <<>> /\ TopOf(native) = f

Start == ph = "start" /\ Call(op) /\ ph' = "run" /\ UNCHANGED <<op, val, in, work, pile, made, freed>>

(* ---- reading ---------------------------------------------------------- *)
RCall == /\ ph = "run" /\ native = <<"read">> /\ in # <<>>
         /\ Call(IF in[1][1] = "close" THEN "finish"
                 ELSE IF work # <<>> /\ pile = <<>> /\ TopOf(work)[3] = 0 THEN "child" ELSE "visit")
         /\ UNCHANGED <<op, val, in, work, pile, made, freed, ph>>
(* the container hands out a place: its third component notes that         *)
RChild == /\ In("child") /\ ph = "run" /\ Return
          /\ work' = [work EXCEPT ![Len(work)][3] = 1]
          /\ UNCHANGED <<op, val, in, pile, made, freed, ph>>
AddKid(w, v) == IF w = <<>> THEN w ELSE [w EXCEPT ![Len(w)] = <<@[1], Append(@[2], v), 0>>]
RVisit == /\ In("visit") /\ ph = "run" /\ Return
          /\ in' = Tail(in)
          /\ IF in[1][1] = "x"
             THEN /\ work' = AddKid(work, <<"x">>)
                  /\ made' = made + 1
                  /\ ph' = (IF work = <<>> THEN "whole" ELSE "run")
             ELSE /\ work' = Append(work, <<in[1][2], <<>>, 0>>)
                  /\ UNCHANGED <<made, ph>>
          /\ UNCHANGED <<op, val, pile, freed>>
RFinish == /\ In("finish") /\ ph = "run" /\ Return
           /\ in' = Tail(in)
           /\ LET v == <<TopOf(work)[1], TopOf(work)[2]>> IN
              /\ work' = AddKid(Cut(work), v)
              /\ made' = made + 1
              /\ ph' = (IF Len(work) = 1 THEN "whole" ELSE "run")
           /\ UNCHANGED <<op, val, pile, freed>>
RDone == /\ ph = "whole" /\ native = <<"read">> /\ native' = <<"destroy">> /\ ph' = "destroy" /\ pile' = <<val>>
         /\ UNCHANGED <<op, val, in, work, made, freed>>
(* any call fails: by returning an error or by unwinding                   *)
RFail == /\ op = "read" /\ ph = "run" /\ Len(native) = 2 /\ Return /\ ph' = "fail"
         /\ UNCHANGED <<op, val, in, work, pile, made, freed>>
RDiscard == /\ ph = "fail" /\ native = <<"read">> /\ work # <<>>
            /\ Call("discard") /\ pile' = TopOf(work)[2] /\ work' = Cut(work)
            /\ UNCHANGED <<op, val, in, made, freed, ph>>
RDestroy == /\ In("discard") /\ op = "read" /\ pile # <<>> /\ Call("destroy")
            /\ UNCHANGED <<op, val, in, work, pile, made, freed, ph>>
RDiscarded == /\ In("discard") /\ op = "read" /\ pile = <<>> /\ Return
              /\ UNCHANGED <<op, val, in, work, pile, made, freed, ph>>
RFailed == ph = "fail" /\ native = <<"read">> /\ work = <<>> /\ native' = <<>> /\ ph' = "end"
           /\ UNCHANGED <<op, val, in, work, pile, made, freed>>

(* ---- destroying ------------------------------------------------------- *)
DTake == /\ In("destroy") /\ pile # <<>> /\ Call("release")
         /\ pile' = Cut(pile) \o Kids(TopOf(pile))
         /\ UNCHANGED <<op, val, in, work, made, freed, ph>>
DFree == In("release") /\ Return /\ freed' = freed + 1 /\ UNCHANGED <<op, val, in, work, pile, made, ph>>
DEnd == /\ In("destroy") /\ pile = <<>> /\ Return
        /\ ph' = (IF ph = "destroy" THEN "end" ELSE ph)
        /\ UNCHANGED <<op, val, in, work, pile, made, freed>>

(* ---- writing ---------------------------------------------------------- *)
WCall == /\ op = "write" /\ ph = "run" /\ native = <<"write">>
         /\ Call(IF work = <<>> THEN "begin" ELSE IF TopOf(work)[1] = "ask" THEN "next" ELSE "begin")
         /\ UNCHANGED <<op, val, in, work, pile, made, freed, ph>>
Asked == IF work = <<>> THEN val ELSE TopOf(work)[2][1]
(* a value tells what it is; a stream joins the machine's own stack        *)
WBegin == /\ In("begin") /\ ph = "run" /\ Return
          /\ LET v == Asked
                 rest == IF work = <<>> THEN <<>>
                         ELSE Append(Cut(work), <<"ask", Tail(TopOf(work)[2])>>)
             IN IF v[1] = "x"
                THEN work' = rest /\ ph' = (IF rest = <<>> THEN "whole" ELSE "run")
                ELSE work' = Append(rest, <<"ask", v[2]>>) /\ UNCHANGED ph
          /\ UNCHANGED <<op, val, in, pile, made, freed>>
WNext == /\ In("next") /\ ph = "run" /\ Return
         /\ IF TopOf(work)[2] # <<>>
            THEN work' = Append(Cut(work), <<"got", TopOf(work)[2]>>) /\ UNCHANGED ph
            ELSE work' = Cut(work) /\ ph' = (IF Len(work) = 1 THEN "whole" ELSE "run")
         /\ UNCHANGED <<op, val, in, pile, made, freed>>
WPanic == /\ op = "write" /\ ph = "run" /\ Len(native) = 2 /\ Return /\ ph' = "fail"
          /\ UNCHANGED <<op, val, in, work, pile, made, freed>>
WDiscard == /\ op = "write" /\ ph = "fail" /\ native = <<"write">> /\ work # <<>> /\ Call("discard")
            /\ UNCHANGED <<op, val, in, work, pile, made, freed, ph>>
WDiscarded == /\ op = "write" /\ In("discard") /\ Return /\ work' = Cut(work)
              /\ UNCHANGED <<op, val, in, pile, made, freed, ph>>
WDone == /\ op = "write" /\ native = <<"write">> /\ (ph = "whole" \/ (ph = "fail" /\ work = <<>>))
         /\ native' = <<"destroy">> /\ ph' = "destroy" /\ pile' = <<val>>
         /\ UNCHANGED <<op, val, in, work, made, freed>>

Next == \/ Start
        \/ op = "read" /\ (RCall \/ RChild \/ RVisit \/ RFinish \/ RDone \/ RFail \/ RDiscard \/ RDestroy \/ RDiscarded \/ RFailed)
        \/ DTake \/ DFree \/ DEnd
        \/ WCall \/ WBegin \/ WNext \/ WPanic \/ WDiscard \/ WDiscarded \/ WDone

(* ---- what must hold --------------------------------------------------- *)
Short == native \in FRAMES
Balance == ph = "end" => freed = made /\ native = <<>> /\ work = <<>> /\ pile = <<>>
OnHeap == Len(work) <= DepthOf(val)
NoStop == ph # "end" => ENABLED Next
=============================================================================
