----------------------------- MODULE MC_Derive -----------------------------
(***************************************************************************)
(* All items of few features, each printed to be given to the compiler     *)
(* with the verdict expected.                                              *)
(***************************************************************************)
EXTENDS Derive, TLC, Json, IOUtils

CONF == ndJsonDeserialize(IOEnv.CONF)[1]

VARIABLES item, weight

MInit == item \in Start /\ weight = 0

(* Kinds that are never taken are not worth the same effort.               *)
Effort(t) == IF Kind(t) \in {Named, Enum} THEN CONF.weight ELSE CONF.weight - 1
(* Wide only where it matters: at most so many features beside attributes. *)
Plain(t) == Len(Generics(t)) + (IF Context(t) = 1 THEN 0 ELSE 1) + (IF ItemAttr(t) = 0 THEN 0 ELSE 1)

MNext == /\ weight < Effort(item)
         /\ item' \in Grow(item)
         /\ weight' = weight + 1
         /\ Plain(item') <= CONF.plain
         /\ (\E k \in 1..Len(Members(item')) : Members(item')[k][2] # <<>>) => Plain(item') + Len(Members(item')) <= CONF.mixed

Shown == PrintT(ToString(<<"ITEM", IF Accept(item) THEN 1 ELSE 0>> \o Encode(item)))

(* No feature makes an item that was refused acceptable.                   *)
Final == [][~Accept(item) => ~Accept(item')]_<<item, weight>>
(* Neither an inactive attribute nor somebody else's matters.              *)
Strip(m) == <<m[1], SelectSeq(m[2], LAMBDA a : Live(a[1]))>>
Bare(t) == [t EXCEPT ![6] = [k \in 1..Len(t[6]) |-> Strip(t[6][k])]]
Foreign == Accept(item) = Accept(Bare(item)) /\ (Accept(item) => Names(item) = Names(Bare(item)))
(* Nor where the item stands, nor the generics of a struct.                *)
Elsewhere == /\ Accept(item) = Accept([item EXCEPT ![3] = 1])
             /\ Kind(item) # Enum => Accept(item) = Accept([item EXCEPT ![5] = <<>>])
=============================================================================
