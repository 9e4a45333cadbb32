------------------------------- MODULE Typed -------------------------------
(***************************************************************************)
(* Reading into a Rust type: the value a walk of a document builds in a    *)
(* place of a given type, or its rejection.                                *)
(*                                                                         *)
(* A type is a descriptor:                                                 *)
(*   <<"int", minAbsDigits, maxDigits>>  <<"f64">> <<"f32">> <<"bool">>    *)
(*   <<"unit">> <<"str">> <<"opt",T>> <<"box",T>> <<"tup",A,B>>            *)
(*   <<"vec",T>> <<"arr",N,T>> <<"map",K,V>> <<"struct",fields>>           *)
(*   <<"enum",variants>> <<"value">> <<"num">> <<"varray">> <<"vobject">>  *)
(*   <<"ignore">> <<"ref",k>>  (the k-th named type)                       *)
(*   <<"dflt",T,flat>>  (a type with a value of its own for a field whose  *)
(*                       member is missing)                                *)
(* Fields are <<identifier, <<>> or <<rename>>, T>>, variants are          *)
(* <<identifier, <<>> or <<rename>>>>, as the program text has them.       *)
(*                                                                         *)
(* The machine is driven by the events of JsonText, one VStep per event,   *)
(* and builds a flat token sequence (see Values); tokens of typed values:  *)
(*   <<"n",neg,digits>> <<"b",x>> <<"unit">> <<"s",bytes>> <<"none">>      *)
(*   <<"some">> <<"box">> <<"v",n>> <<"t",2>> <<"m",n>> <<"k",bytes>>      *)
(*   <<"st",n>> <<"e",index>>, and those of Values.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Values

CONSTANT ENV    \* the named types

(* ---- names ---------------------------------------------------------- *)
(* The JSON name of a field or variant: the rename if there is one, else   *)
(* the identifier without its raw prefix "r#".                             *)
JsonName(f) ==
  IF f[2] # <<>> THEN f[2][1]
  ELSE IF Len(f[1]) > 2 /\ f[1][1] = 114 /\ f[1][2] = 35
       THEN SubSeq(f[1], 3, Len(f[1]))
       ELSE f[1]

IndexOfName(fs, name) ==
  IF \E k \in 1..Len(fs) : JsonName(fs[k]) = name
  THEN CHOOSE k \in 1..Len(fs) : JsonName(fs[k]) = name
  ELSE 0

RECURSIVE Resolve(_)
Resolve(t) == IF t[1] = "ref" THEN Resolve(ENV[t[2]]) ELSE t

(* ---- map keys ------------------------------------------------------- *)
(* The canonical text of a key, or <<"bad">>.                              *)
BADKEY == <<-1>>
AllDigits(b) == b # <<>> /\ \A k \in 1..Len(b) : b[k] \in 48..57

IntKey(t, b) ==
  LET sign == IF b # <<>> /\ b[1] \in {43, 45} THEN b[1] ELSE 0
      body == IF sign = 0 THEN b ELSE Tail(b)
  IN IF ~AllDigits(body) THEN BADKEY
     ELSE LET d == Strip([k \in 1..Len(body) |-> body[k] - 48])
              txt == IF d = <<>> THEN <<48>> ELSE [k \in 1..Len(d) |-> d[k] + 48]
          IN IF sign = 45
             THEN IF t[2] = <<>> \/ ~NatLeq(d, t[2]) THEN BADKEY
                  ELSE IF d = <<>> THEN txt ELSE <<45>> \o txt
             ELSE IF NatLeq(d, t[3]) THEN txt ELSE BADKEY

(* length of the character that starts with byte c                         *)
CharLen(c) == IF c < 128 THEN 1 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE 4

KeyOf(t, b) ==
  CASE t[1] = "str" -> b
    [] t[1] = "int" -> IntKey(t, b)
    [] t[1] = "bool" -> IF b \in {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>} THEN b ELSE BADKEY
    [] t[1] = "char" -> IF b # <<>> /\ Len(b) = CharLen(b[1]) THEN b ELSE BADKEY
    [] t[1] = "fold" -> IF Len(b) > t[2] THEN BADKEY
                        ELSE [k \in 1..Len(b) |-> IF b[k] \in 65..90 THEN b[k] + 32 ELSE b[k]]

(* ---- the machine ---------------------------------------------------- *)
(* root: the type of the whole; stk: open containers; out: the result;     *)
(* bad: the document does not fit the type; done: a value was completed.   *)
TypedInit(t) == [root |-> t, stk |-> <<>>, out |-> <<>>, bad |-> FALSE, done |-> FALSE]

Reject(v) == [v EXCEPT !.bad = TRUE]
PopT(v) == [v EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
TopT(v) == v.stk[Len(v.stk)]
PushT(v, f) == [v EXCEPT !.stk = Append(@, f)]

(* The type of the place the next value goes to.                           *)
Wanted(v) ==
  IF v.stk = <<>> THEN v.root
  ELSE LET f == TopT(v) IN
       CASE f.k \in {"vec", "arr"} -> f.t
         [] f.k = "tup" -> f.ts[f.n + 1]
         [] f.k = "map" -> f.t
         [] f.k = "struct" -> IF f.cur = 0 THEN <<"ignore">> ELSE f.fs[f.cur][3]

Put(v, flat) ==
  IF v.stk = <<>> THEN [v EXCEPT !.out = flat, !.done = TRUE]
  ELSE LET L == Len(v.stk)
           f == v.stk[L]
       IN CASE f.k \in {"vec", "arr", "tup"} ->
                 [v EXCEPT !.stk[L] = [f EXCEPT !.n = @ + 1, !.f = @ \o flat]]
            [] f.k = "map" -> [v EXCEPT !.stk[L] = [f EXCEPT !.ms = Append(@, <<f.key, flat>>)]]
            [] f.k = "struct" ->
                 IF f.cur = 0 THEN v
                 ELSE [v EXCEPT !.stk[L] = [f EXCEPT !.vals = [@ EXCEPT ![f.cur] = <<flat>>]]]

(* Through optional, boxed and named types: <<tokens before, core type>>.  *)
(* Null stops at the outermost optional.                                   *)
RECURSIVE Open(_, _, _)
Open(t, e, pre) ==
  CASE t[1] = "ref" -> Open(ENV[t[2]], e, pre)
    [] t[1] = "opt" -> IF e[1] = "null" THEN <<Append(pre, <<"none">>), <<"absent">>>>
                       ELSE Open(t[2], e, Append(pre, <<"some">>))
    [] t[1] = "box" -> Open(t[2], e, Append(pre, <<"box">>))
    [] t[1] = "dflt" -> Open(t[2], e, pre)
    [] OTHER -> <<pre, t>>

Scalar(v, t, pre, e) ==
  LET take(tok) == Put(v, Append(pre, tok)) IN
  CASE t[1] = "absent" -> Put(v, pre)
    [] t[1] = "ignore" -> Put(v, pre)
    [] t[1] = "value" -> take(ScalarFlat(e)[1])
    [] t[1] = "int" ->
         (CASE e[1] = "nonneg" -> IF NatLeq(e[2], t[3]) THEN take(<<"n", 0, e[2]>>) ELSE Reject(v)
            [] e[1] = "neg" -> IF t[2] # <<>> /\ NatLeq(e[2], t[2])
                               THEN take(<<"n", IF e[2] = <<>> THEN 0 ELSE 1, e[2]>>) ELSE Reject(v)
            [] OTHER -> Reject(v))
    [] t[1] \in {"f64", "f32"} ->
         (CASE e[1] = "nonneg" -> take(<<"fi", 0, e[2], t[1]>>)
            [] e[1] = "neg" -> take(<<"fi", 1, e[2], t[1]>>)
            [] e[1] = "float" -> take(<<"ft", e[2], e[3], e[4], t[1]>>)
            [] e[1] = "double" -> take(<<"fr", e[2], t[1]>>)
            [] OTHER -> Reject(v))
    [] t[1] = "num" -> IF e[1] \in {"nonneg", "neg", "float", "double"} THEN take(ScalarFlat(e)[1]) ELSE Reject(v)
    [] t[1] = "bool" -> IF e[1] = "bool" THEN take(<<"b", e[2]>>) ELSE Reject(v)
    [] t[1] = "unit" -> IF e[1] = "null" THEN take(<<"unit">>) ELSE Reject(v)
    [] t[1] = "str" -> IF e[1] = "str" THEN take(<<"s", e[2]>>) ELSE Reject(v)
    [] t[1] = "enum" -> IF e[1] = "str" /\ IndexOfName(t[2], e[2]) # 0
                        THEN take(<<"e", IndexOfName(t[2], e[2])>>) ELSE Reject(v)
    [] OTHER -> Reject(v)

OpenSeq(v, t, pre, e) ==
  CASE t[1] = "vec" -> PushT(v, [k |-> "vec", t |-> t[2], n |-> 0, f |-> <<>>, pre |-> pre])
    [] t[1] = "arr" -> PushT(v, [k |-> "arr", t |-> t[3], N |-> t[2], n |-> 0, f |-> <<>>, pre |-> pre])
    [] t[1] = "tup" -> PushT(v, [k |-> "tup", ts |-> <<t[2], t[3]>>, N |-> 2, n |-> 0, f |-> <<>>, pre |-> pre])
    [] t[1] \in {"value", "varray"} -> PushT(v, [k |-> "val", v |-> ValueStep(ValueInit, e), d |-> 1, pre |-> pre])
    [] t[1] = "ignore" -> PushT(v, [k |-> "ign", d |-> 1])
    [] OTHER -> Reject(v)

OpenMap(v, t, pre, e) ==
  CASE t[1] = "map" -> PushT(v, [k |-> "map", kt |-> t[2], t |-> t[3], ms |-> <<>>, key |-> <<>>, pre |-> pre])
    [] t[1] = "struct" -> PushT(v, [k |-> "struct", fs |-> t[2], cur |-> 0, pre |-> pre,
                                    vals |-> [k \in 1..Len(t[2]) |-> <<>>]])
    [] t[1] \in {"value", "vobject"} -> PushT(v, [k |-> "val", v |-> ValueStep(ValueInit, e), d |-> 1, pre |-> pre])
    [] t[1] = "ignore" -> PushT(v, [k |-> "ign", d |-> 1])
    [] OTHER -> Reject(v)

(* A struct is complete if every field has a value, is optional or has a   *)
(* default of its own.                                                     *)
FieldDone(f, k) == f.vals[k] # <<>> \/ Resolve(f.fs[k][3])[1] \in {"opt", "dflt"}
FieldFlat(f, k) == IF f.vals[k] # <<>> THEN f.vals[k][1]
                   ELSE LET t == Resolve(f.fs[k][3]) IN
                        IF t[1] = "opt" THEN <<<<"none">>>> ELSE t[3]

RECURSIVE Concat(_, _, _)
Concat(f, k, acc) == IF k > Len(f.fs) THEN acc ELSE Concat(f, k + 1, acc \o FieldFlat(f, k))

Close(v, f) ==
  CASE f.k = "vec" -> Put(PopT(v), f.pre \o <<<<"v", f.n>>>> \o f.f)
    [] f.k = "arr" -> IF f.n = f.N THEN Put(PopT(v), f.pre \o <<<<"v", f.n>>>> \o f.f) ELSE Reject(v)
    [] f.k = "tup" -> IF f.n = 2 THEN Put(PopT(v), f.pre \o <<<<"t", 2>>>> \o f.f) ELSE Reject(v)
    [] f.k = "map" -> LET ms == SortedMembers(f.ms) IN
                      Put(PopT(v), f.pre \o <<<<"m", Len(ms)>>>> \o FlatMembers(ms))
    [] f.k = "struct" -> IF \A k \in 1..Len(f.fs) : FieldDone(f, k)
                         THEN Put(PopT(v), f.pre \o <<<<"st", Len(f.fs)>>>> \o Concat(f, 1, <<>>))
                         ELSE Reject(v)

(* Inside content whose shape the type does not constrain.                 *)
Depth(e) == CASE e[1] \in {"seq", "map"} -> 1 [] e[1] \in {"endseq", "endmap"} -> -1 [] OTHER -> 0

InValue(v, f, e) ==
  LET w == ValueStep(f.v, e)
      d == f.d + Depth(e)
  IN IF d = 0 THEN Put(PopT(v), f.pre \o w.out)
     ELSE [v EXCEPT !.stk[Len(v.stk)] = [f EXCEPT !.v = w, !.d = d]]

InIgnored(v, f, e) ==
  LET d == f.d + Depth(e)
  IN IF d = 0 THEN Put(PopT(v), <<>>)
     ELSE [v EXCEPT !.stk[Len(v.stk)] = [f EXCEPT !.d = d]]

InTyped(v, e) ==
  CASE e[1] = "elem" -> LET f == TopT(v) IN
                        IF f.k \in {"arr", "tup"} /\ f.n = f.N THEN Reject(v) ELSE v
    [] e[1] = "key" ->
         LET f == TopT(v) IN
         IF f.k = "map"
         THEN LET k == KeyOf(f.kt, e[2]) IN
              IF k = BADKEY THEN Reject(v) ELSE [v EXCEPT !.stk[Len(v.stk)] = [f EXCEPT !.key = k]]
         ELSE [v EXCEPT !.stk[Len(v.stk)] = [f EXCEPT !.cur = IndexOfName(f.fs, e[2])]]
    [] e[1] \in {"endseq", "endmap"} -> Close(v, TopT(v))
    [] OTHER -> LET o == Open(Wanted(v), e, <<>>) IN
                CASE e[1] = "seq" -> OpenSeq(v, o[2], o[1], e)
                  [] e[1] = "map" -> OpenMap(v, o[2], o[1], e)
                  [] OTHER -> Scalar(v, o[2], o[1], e)

VStep(v, e) ==
  IF v.bad THEN v
  ELSE IF v.stk # <<>> /\ TopT(v).k = "val" THEN InValue(v, TopT(v), e)
  ELSE IF v.stk # <<>> /\ TopT(v).k = "ign" THEN InIgnored(v, TopT(v), e)
  ELSE InTyped(v, e)

(* ---- observed tokens ------------------------------------------------- *)
(* single precision: the interval already contains the tolerance, and the  *)
(* value may be beyond the finite range                                    *)
Within(d, x, f) == DecLeq(f[6], <<d, x>>) /\ DecLeq(<<d, x>>, f[7])

TypedTokenMatch(want, got) ==
  CASE want[1] = "fi" -> /\ got[1] = "f"
                         /\ got[3] = 1 \/ want[4] = "f32"
                         /\ got[2] = want[2] \/ want[3] = <<>>
                         /\ Within(want[3], 0, got)
    [] want[1] = "ft" ->
         IF want[5] = "f64" THEN got[1] = "f" /\ FloatMatch(want[2], want[3], want[4], Exact(want[3], want[4]), got)
         ELSE got[1] = "f" /\ got[2] = want[2] /\ Within(want[3], want[4], got)
    [] want[1] = "fr" -> IF Len(want) = 3 /\ want[3] = "f32" THEN want[2] = got ELSE BackMatch(want[2], got)
    [] want[1] = "fd" -> got[1] = "f" /\ FloatMatch(want[2], want[3], want[4], Exact(want[3], want[4]), got)
    [] OTHER -> want = got

TypedMatch(want, got) ==
  /\ Len(want) = Len(got)
  /\ \A k \in 1..Len(want) : TypedTokenMatch(want[k], got[k])
=============================================================================
