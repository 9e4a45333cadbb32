------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The untyped containers as what they stand for: an array is a sequence   *)
(* of values, an object a sequence of members sorted by name.              *)
(*                                                                         *)
(* A store is a few registers, each holding a value:                       *)
(*   <<"null">> <<"b",x>> <<"u",digits>> <<"i",1,digits>> <<"s",bytes>>    *)
(*   a few floats (opaque, with the texts they are shown and written as)   *)
(*   <<"a", seq of values>>  <<"o", seq of <<name, value>> >>              *)
(* An operation is a tuple of numbers <<code, r, s, a, b, path...>>: it    *)
(* works on the value at that path in register r (the k-th child at each   *)
(* level, from 0) and may also use register s; a and b are further         *)
(* arguments (a literal, a name, a position).  Applying it gives the new   *)
(* store, whether it applied, and what it let the caller observe.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Values

CONSTANTS LITS, KEYS,   \* literals and names, numbered from 0
          FLOATS        \* sequence of <<float, shown, written>>

Lit(a) == LITS[a + 1]
(* names beyond the listed ones: k and four digits                         *)
Key(b) == IF b < Len(KEYS) THEN KEYS[b + 1]
          ELSE <<107, 48 + (b \div 1000), 48 + ((b \div 100) % 10), 48 + ((b \div 10) % 10), 48 + (b % 10)>>
Null == <<"null">>
IsA(v) == v[1] = "a"
IsO(v) == v[1] = "o"
Arr(q) == <<"a", q>>
Obj(ms) == <<"o", ms>>

Kids(v) == CASE IsA(v) -> v[2]
             [] IsO(v) -> [k \in 1..Len(v[2]) |-> v[2][k][2]]
             [] OTHER -> <<>>
WithKid(v, k, w) == IF IsA(v) THEN Arr([v[2] EXCEPT ![k] = w])
                    ELSE Obj([v[2] EXCEPT ![k] = <<@[1], w>>])

RECURSIVE Has(_, _), Get(_, _), Upd(_, _, _), Flat(_), Size(_)
Has(v, p) == p = <<>> \/ (p[1] < Len(Kids(v)) /\ Has(Kids(v)[p[1] + 1], Tail(p)))
Get(v, p) == IF p = <<>> THEN v ELSE Get(Kids(v)[p[1] + 1], Tail(p))
Upd(v, p, w) == IF p = <<>> THEN w
                ELSE WithKid(v, p[1] + 1, Upd(Kids(v)[p[1] + 1], Tail(p), w))
Flat(v) == CASE IsA(v) -> FoldLeft(LAMBDA acc, x : acc \o Flat(x), <<<<"a", Len(v[2])>>>>, v[2])
             [] IsO(v) -> FoldLeft(LAMBDA acc, m : acc \o <<<<"k", m[1]>>>> \o Flat(m[2]), <<<<"o", Len(v[2])>>>>, v[2])
             [] OTHER -> <<v>>
Size(v) == 1 + FoldLeft(LAMBDA acc, x : acc + Size(x), 0, Kids(v))

(* ---- sequences ------------------------------------------------------ *)
Take(q, n) == SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q))
Drop(q, n) == SubSeq(q, n + 1, Len(q))
InsertAt0(q, n, x) == Take(q, n) \o <<x>> \o Drop(q, n)
RemoveAt0(q, n) == Take(q, n) \o Drop(q, n + 1)
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Evens(q) == LET n == (Len(q) + 1) \div 2 IN [k \in 1..n |-> q[2 * k - 1]]

(* ---- sorted members ------------------------------------------------- *)
At(ms, k) == IF \E j \in 1..Len(ms) : ms[j][1] = k THEN CHOOSE j \in 1..Len(ms) : ms[j][1] = k ELSE 0
MPut(ms, k, v) ==
  IF At(ms, k) # 0 THEN [ms EXCEPT ![At(ms, k)] = <<k, v>>]
  ELSE SelectSeq(ms, LAMBDA m : BytesLess(m[1], k, 1)) \o <<<<k, v>>>>
       \o SelectSeq(ms, LAMBDA m : BytesLess(k, m[1], 1))
MDel(ms, k) == SelectSeq(ms, LAMBDA m : m[1] # k)
MAll(ms, more) == FoldLeft(LAMBDA acc, m : MPut(acc, m[1], m[2]), ms, more)

(* ---- texts ---------------------------------------------------------- *)
B(str) == CASE str = "Null" -> <<78, 117, 108, 108>>
            [] str = "null" -> <<110, 117, 108, 108>>
            [] str = "true" -> <<116, 114, 117, 101>>
            [] str = "false" -> <<102, 97, 108, 115, 101>>
            [] str = "Bool(" -> <<66, 111, 111, 108, 40>>
            [] str = "Number(" -> <<78, 117, 109, 98, 101, 114, 40>>
            [] str = "String(" -> <<83, 116, 114, 105, 110, 103, 40>>
            [] str = "Array [" -> <<65, 114, 114, 97, 121, 32, 91>>
            [] str = "Object {" -> <<79, 98, 106, 101, 99, 116, 32, 123>>
Ascii(d) == IF d = <<>> THEN <<48>> ELSE [k \in 1..Len(d) |-> d[k] + 48]
NumText(v) == IF v[1] = "u" THEN Ascii(v[2]) ELSE (IF v[2] = 1 THEN <<45>> ELSE <<>>) \o Ascii(v[3])
Hex1(x) == IF x < 10 THEN 48 + x ELSE 87 + x
(* How a string is shown: Rust's debug form (printable text only here      *)
(* above ASCII), and how it is written: JSON.                              *)
ShownByte(b) == CASE b = 34 -> <<92, 34>> [] b = 92 -> <<92, 92>> [] b = 10 -> <<92, 110>>
                  [] b = 9 -> <<92, 116>> [] b = 13 -> <<92, 114>> [] b = 0 -> <<92, 48>>
                  [] b \in 1..15 -> <<92, 117, 123, Hex1(b), 125>>
                  [] b \in 16..31 \cup {127} -> <<92, 117, 123, Hex1(b \div 16), Hex1(b % 16), 125>>
                  [] OTHER -> <<b>>
WrittenByte(b) == CASE b = 34 -> <<92, 34>> [] b = 92 -> <<92, 92>> [] b = 10 -> <<92, 110>>
                    [] b = 9 -> <<92, 116>> [] b = 13 -> <<92, 114>> [] b = 8 -> <<92, 98>> [] b = 12 -> <<92, 102>>
                    [] b \in 0..31 -> <<92, 117, 48, 48, Hex1(b \div 16), Hex1(b % 16)>>
                    [] OTHER -> <<b>>
Shown(s) == <<34>> \o FoldLeft(LAMBDA acc, b : acc \o ShownByte(b), <<>>, s) \o <<34>>
Written(s) == <<34>> \o FoldLeft(LAMBDA acc, b : acc \o WrittenByte(b), <<>>, s) \o <<34>>
Float(v) == CHOOSE f \in {FLOATS[k] : k \in 1..Len(FLOATS)} : f[1] = v
Finite(v) == Float(v)[3] # B("null")
Join(qs, sep) == IF qs = <<>> THEN <<>>
                 ELSE FoldLeft(LAMBDA acc, q : acc \o sep \o q, qs[1], Tail(qs))

RECURSIVE Debug(_), Pretty(_, _), Json(_)
Debug(v) ==
  CASE v[1] = "null" -> B("Null")
    [] v[1] = "b" -> B("Bool(") \o (IF v[2] = 1 THEN B("true") ELSE B("false")) \o <<41>>
    [] v[1] \in {"u", "i"} -> B("Number(") \o NumText(v) \o <<41>>
    [] v[1] = "s" -> B("String(") \o Shown(v[2]) \o <<41>>
    [] v[1] = "f" -> B("Number(") \o Float(v)[2] \o <<41>>
    [] v[1] = "a" -> B("Array [") \o Join([k \in 1..Len(v[2]) |-> Debug(v[2][k])], <<44, 32>>) \o <<93>>
    [] v[1] = "o" -> B("Object {") \o Join([k \in 1..Len(v[2]) |-> Shown(v[2][k][1]) \o <<58, 32>> \o Debug(v[2][k][2])], <<44, 32>>) \o <<125>>
Indent(n) == [k \in 1..(4 * n) |-> 32]
Pretty(v, n) ==
  CASE IsA(v) /\ v[2] # <<>> ->
         B("Array [") \o <<10>> \o FoldLeft(LAMBDA acc, x : acc \o Indent(n + 1) \o Pretty(x, n + 1) \o <<44, 10>>, <<>>, v[2]) \o Indent(n) \o <<93>>
    [] IsO(v) /\ v[2] # <<>> ->
         B("Object {") \o <<10>> \o FoldLeft(LAMBDA acc, m : acc \o Indent(n + 1) \o Shown(m[1]) \o <<58, 32>> \o Pretty(m[2], n + 1) \o <<44, 10>>, <<>>, v[2]) \o Indent(n) \o <<125>>
    [] OTHER -> Debug(v)
Json(v) ==
  CASE v[1] = "null" -> B("null")
    [] v[1] = "b" -> IF v[2] = 1 THEN B("true") ELSE B("false")
    [] v[1] \in {"u", "i"} -> NumText(v)
    [] v[1] = "s" -> Written(v[2])
    [] v[1] = "f" -> Float(v)[3]
    [] v[1] = "a" -> <<91>> \o Join([k \in 1..Len(v[2]) |-> Json(v[2][k])], <<44>>) \o <<93>>
    [] v[1] = "o" -> <<123>> \o Join([k \in 1..Len(v[2]) |-> Written(v[2][k][1]) \o <<58>> \o Json(v[2][k][2])], <<44>>) \o <<125>>

(* Written and read back: what JSON has no number for becomes null.        *)
RECURSIVE Reread(_)
Reread(v) == CASE v[1] = "f" -> IF Finite(v) THEN v ELSE Null
               [] IsA(v) -> Arr([k \in 1..Len(v[2]) |-> Reread(v[2][k])])
               [] IsO(v) -> Obj([k \in 1..Len(v[2]) |-> <<v[2][k][1], Reread(v[2][k][2])>>])
               [] OTHER -> v

(* ---- operations ------------------------------------------------------ *)
OnArray == (10..39) \cup {57}
OnObject == (40..56) \cup {58, 59}
TwoRegisters == {3, 5, 6, 7, 11, 19, 20, 41, 44, 45}

(* v: the place; x: register s; q: what is in the place.                   *)
(* Result <<new place, new register s or <<>> if untouched, observation>>, *)
(* or <<>> if the operation does not apply.                                *)
NatDigits(k) == IF k = 0 THEN <<>> ELSE LET F[j \in 0..k] == IF j = 0 THEN <<>> ELSE Append(F[j \div 10], j % 10) IN F[k]
Effect(c, v, x, a, b) ==
  LET q == IF IsA(v) \/ IsO(v) THEN v[2] ELSE <<>>
      n == Len(q)
      place(w) == <<w, <<>>, <<>>>>
      both(w, y) == <<w, y, <<>>>>
      see(o) == <<v, <<>>, o>>
  IN
  CASE c = 1 -> place(Lit(a))
    [] c = 2 -> both(Null, v)
    [] c = 3 -> both(x, Null)
    [] c = 4 -> both(v, v)
    [] c = 5 -> place(x)
    [] c = 6 -> IF (IsA(v) /\ IsA(x)) \/ (IsO(v) /\ IsO(x)) THEN place(x) ELSE <<>>
    [] c = 7 -> both(x, v)
    [] c = 8 -> both(Lit(a), v)
    \* arrays
    [] c = 10 -> place(Arr(Append(q, Lit(a))))
    [] c = 11 -> both(Arr(Append(q, x)), Null)
    [] c = 12 -> IF n = 0 THEN <<>> ELSE both(Arr(Take(q, n - 1)), q[n])
    [] c = 13 -> IF b > n THEN <<>> ELSE place(Arr(InsertAt0(q, b, Lit(a))))
    [] c = 14 -> IF b >= n THEN <<>> ELSE both(Arr(RemoveAt0(q, b)), q[b + 1])
    [] c = 15 -> IF b >= n THEN <<>> ELSE both(Arr(Take([q EXCEPT ![b + 1] = q[n]], n - 1)), q[b + 1])
    [] c = 16 -> place(Arr(Take(q, b)))
    [] c = 17 -> place(Arr(<<>>))
    [] c = 18 -> place(Arr(Rev(q)))
    [] c = 19 -> IF IsA(x) THEN both(Arr(q \o x[2]), Arr(<<>>)) ELSE <<>>
    [] c = 20 -> IF IsA(x) THEN place(Arr(q \o x[2])) ELSE <<>>
    [] c = 21 -> IF b > n THEN <<>> ELSE both(Arr(Take(q, b)), Arr(Drop(q, b)))
    [] c = 22 -> IF a > b \/ b > n THEN <<>> ELSE both(Arr(Take(q, a) \o Drop(q, b)), Arr(Drop(Take(q, b), a)))
    [] c = 23 -> place(Arr(Evens(q)))
    [] c = 24 -> place(Arr(Rev(q)))
    [] c = 25 -> both(Arr(<<>>), Arr(Take(q, b)))
    [] c = 26 -> place(Arr([k \in 1..n |-> IF q[k] = Null THEN <<"b", 1>> ELSE q[k]]))
    [] c = 27 -> both(v, Arr(<<v, v>>))
    [] c = 28 -> IF a >= n \/ b >= n THEN <<>> ELSE place(Arr([q EXCEPT ![a + 1] = q[b + 1], ![b + 1] = q[a + 1]]))
    [] c = 29 -> IF b > n THEN <<>> ELSE place(Arr(Drop(q, b) \o Take(q, b)))
    [] c = 30 -> place(Arr(Take(q, b) \o [k \in 1..(IF b > n THEN b - n ELSE 0) |-> Lit(a)]))
    [] c = 31 -> see(<<n % 256, n \div 256, IF n = 0 THEN 1 ELSE 0>>)
    [] c = 32 -> both(Arr(<<>>), IF n = 0 THEN Null ELSE q[n])
    [] c = 33 -> both(Arr(<<>>), Arr(Drop(Take(q, n - 1), 1)))
    [] c = 34 -> IF b > n THEN <<>> ELSE both(Arr(Drop(q, b)), Arr(Take(q, b)))
    [] c = 35 -> place(Arr(q \o [k \in 1..b |-> <<"u", NatDigits(k - 1)>>]))
    [] c = 36 -> IF b > n THEN <<>> ELSE place(Arr(Take(q, b) \o [k \in 1..a |-> Null] \o Drop(q, b)))
    [] c = 37 -> place(v)
    [] c = 57 -> both(Arr(<<>>), Obj(MAll(<<>>, [k \in 1..n |-> <<Key((k - 1) % 3), q[k]>>])))
    \* objects
    [] c = 40 -> both(Obj(MPut(q, Key(b), Lit(a))), IF At(q, Key(b)) = 0 THEN Null ELSE q[At(q, Key(b))][2])
    [] c = 41 -> both(Obj(MPut(q, Key(b), x)), Null)
    [] c = 42 -> IF At(q, Key(b)) = 0 THEN <<>> ELSE both(Obj(MDel(q, Key(b))), q[At(q, Key(b))][2])
    [] c = 43 -> place(Obj(<<>>))
    [] c = 44 -> IF IsO(x) THEN both(Obj(MAll(q, x[2])), Obj(<<>>)) ELSE <<>>
    [] c = 45 -> IF IsO(x) THEN place(Obj(MAll(q, x[2]))) ELSE <<>>
    [] c = 46 -> both(Obj(SelectSeq(q, LAMBDA m : BytesLess(m[1], Key(b), 1))),
                      Obj(SelectSeq(q, LAMBDA m : ~BytesLess(m[1], Key(b), 1))))
    [] c = 47 -> place(Obj(SelectSeq(q, LAMBDA m : Len(m[1]) % 2 = 0)))
    [] c = 48 -> place(v)
    [] c = 49 -> both(Obj(<<>>), Obj(Take(q, b)))
    [] c = 50 -> place(Obj([k \in 1..n |-> <<q[k][1], Lit(a)>>]))
    [] c = 51 -> place(IF At(q, Key(b)) = 0 THEN Obj(MPut(q, Key(b), Lit(a))) ELSE v)
    [] c = 52 -> IF n = 0 THEN <<>> ELSE both(Obj(Tail(q)), q[1][2])
    [] c = 53 -> IF n = 0 THEN <<>> ELSE both(Obj(Take(q, n - 1)), q[n][2])
    [] c = 54 -> IF At(q, Key(b)) = 0 THEN <<>> ELSE place(Obj(MPut(q, Key(b), Lit(a))))
    [] c = 55 -> both(Obj(<<>>), Arr(Kids(v)))
    [] c = 56 -> both(v, Arr([k \in 1..n |-> <<"s", q[k][1]>>]))
    [] c \in {58, 59} -> place(Obj(MAll(q, [k \in 1..b |-> <<Key(k + 9), <<"u", NatDigits(k - 1)>>>>])))
    \* any value
    [] c = 60 -> place(Reread(v))
    [] c = 61 -> see(Debug(v))
    [] c = 62 -> see(Pretty(v, 0))
    [] c = 63 -> see(Json(v))
    [] c = 65 -> place(Null)
    [] c = 66 -> both(Null, v)
    [] c = 67 -> place(IF IsA(v) THEN Arr(<<>>) ELSE IF IsO(v) THEN Obj(<<>>) ELSE Null)
    [] c = 68 -> place(Arr(<<v>>))
    [] c = 69 -> place(Obj(<<<<Key(b), v>>>>))
    [] OTHER -> <<>>

NA(st) == [st |-> st, app |-> 0, obs |-> <<>>]

Apply(st, op) ==
  LET c == op[1]
      r == op[2] + 1
      s == op[3] + 1
      p == SubSeq(op, 6, Len(op))
  IN IF ~Has(st[r], p) \/ (c \in TwoRegisters /\ r = s) THEN NA(st)
     ELSE LET v == Get(st[r], p) IN
     IF (c \in OnArray /\ ~IsA(v)) \/ (c \in OnObject /\ ~IsO(v)) THEN NA(st)
     ELSE LET e == Effect(c, v, st[s], op[4], op[5]) IN
     IF e = <<>> THEN NA(st)
     ELSE LET t == [st EXCEPT ![r] = Upd(@, p, e[1])]
          IN [st |-> IF e[2] = <<>> THEN t ELSE [t EXCEPT ![s] = e[2]], app |-> 1, obs |-> e[3]]
=============================================================================
