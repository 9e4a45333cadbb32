------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* RFC 8259 written down a second time, declaratively: Ends(w, i) is the   *)
(* set of positions at which a production that starts at position i of the *)
(* byte sequence w may end.  Used only to cross-check JsonText.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

At(w, i) == IF i <= Len(w) THEN w[i] ELSE -1
IsDigit(c) == c \in 48..57
IsHex(c) == c \in (48..57) \cup (65..70) \cup (97..102)
GHex(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87

RECURSIVE WsEnd(_, _)
WsEnd(w, i) == IF At(w, i) \in {32, 9, 10, 13} THEN WsEnd(w, i + 1) ELSE i

Lit(w, i, l) == IF i + Len(l) - 1 <= Len(w) /\ SubSeq(w, i, i + Len(l) - 1) = l THEN {i + Len(l)} ELSE {}

RECURSIVE DigitsEnd(_, _)
DigitsEnd(w, i) == IF IsDigit(At(w, i)) THEN DigitsEnd(w, i + 1) ELSE i

(* number = [ minus ] int [ frac ] [ exp ], taken as far as it goes        *)
NumberEnds(w, i) ==
  LET a == IF At(w, i) = 45 THEN i + 1 ELSE i
      b == IF At(w, a) = 48 THEN a + 1 ELSE IF At(w, a) \in 49..57 THEN DigitsEnd(w, a + 1) ELSE 0
      c == IF b = 0 THEN 0
           ELSE IF At(w, b) = 46 THEN (IF IsDigit(At(w, b + 1)) THEN DigitsEnd(w, b + 1) ELSE 0)
           ELSE b
      e1 == IF c # 0 /\ At(w, c) \in {101, 69}
            THEN (IF At(w, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE 0
      d == IF c = 0 THEN 0
           ELSE IF e1 = 0 THEN c
           ELSE IF IsDigit(At(w, e1)) THEN DigitsEnd(w, e1) ELSE 0
  IN IF d = 0 THEN {} ELSE {d}

Unit(w, i) == \* \uXXXX at i: its value, or -1
  IF At(w, i) = 92 /\ At(w, i + 1) = 117 /\ \A k \in 2..5 : IsHex(At(w, i + k))
  THEN GHex(w[i + 2]) * 4096 + GHex(w[i + 3]) * 256 + GHex(w[i + 4]) * 16 + GHex(w[i + 5])
  ELSE -1

RECURSIVE CharsEnd(_, _)
CharsEnd(w, i) == \* after the opening quote: position after the closing one, or 0
  LET c == At(w, i) IN
  IF c = 34 THEN i + 1
  ELSE IF c = 92
       THEN IF At(w, i + 1) \in {34, 92, 47, 98, 102, 110, 114, 116} THEN CharsEnd(w, i + 2)
            ELSE LET u == Unit(w, i) IN
                 IF u = -1 \/ u \in 56320..57343 THEN 0
                 ELSE IF u \in 55296..56319
                      THEN (IF Unit(w, i + 6) \in 56320..57343 THEN CharsEnd(w, i + 12) ELSE 0)
                      ELSE CharsEnd(w, i + 6)
  ELSE IF c >= 32 THEN CharsEnd(w, i + 1) ELSE 0

StringEnds(w, i) == IF At(w, i) = 34 /\ CharsEnd(w, i + 1) # 0 THEN {CharsEnd(w, i + 1)} ELSE {}

RECURSIVE ValueEnds(_, _), ElementsEnds(_, _), MembersEnds(_, _)

(* positions after  value *( , value ) ]                                   *)
ElementsEnds(w, i) ==
  UNION { LET b == WsEnd(w, e) IN
          IF At(w, b) = 93 THEN {b + 1}
          ELSE IF At(w, b) = 44 THEN ElementsEnds(w, b + 1) ELSE {}
        : e \in ValueEnds(w, WsEnd(w, i)) }

MembersEnds(w, i) ==
  UNION { LET c == WsEnd(w, k) IN
          IF At(w, c) # 58 THEN {}
          ELSE UNION { LET b == WsEnd(w, e) IN
                       IF At(w, b) = 125 THEN {b + 1}
                       ELSE IF At(w, b) = 44 THEN MembersEnds(w, b + 1) ELSE {}
                     : e \in ValueEnds(w, WsEnd(w, c + 1)) }
        : k \in StringEnds(w, WsEnd(w, i)) }

ValueEnds(w, i) ==
  Lit(w, i, <<110, 117, 108, 108>>) \cup Lit(w, i, <<116, 114, 117, 101>>)
  \cup Lit(w, i, <<102, 97, 108, 115, 101>>)
  \cup NumberEnds(w, i) \cup StringEnds(w, i)
  \cup (IF At(w, i) = 91
        THEN (LET b == WsEnd(w, i + 1) IN IF At(w, b) = 93 THEN {b + 1} ELSE ElementsEnds(w, i + 1))
        ELSE {})
  \cup (IF At(w, i) = 123
        THEN (LET b == WsEnd(w, i + 1) IN IF At(w, b) = 125 THEN {b + 1} ELSE MembersEnds(w, i + 1))
        ELSE {})

IsJson(w) == \E e \in ValueEnds(w, WsEnd(w, 1)) : WsEnd(w, e) = Len(w) + 1
=============================================================================
