------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* Which items the derive macros take, and the names they give members.    *)
(*                                                                         *)
(* An item is <<kind, trait, context, item attribute, generics, members>>: *)
(*   kind     1 struct with named fields, 2 tuple struct, 3 unit struct,   *)
(*            4 enum, 5 union                                              *)
(*   trait    1 Serialize, 2 Deserialize                                   *)
(*   context  where it stands (1 a plain module; 2 a function body; 3 the  *)
(*            body of a macro; 4 no prelude; 5 prelude names taken; 6      *)
(*            statics named like fields; 7 strict lints)                   *)
(*   members  a sequence of <<member, attributes>>, an attribute being     *)
(*            <<form, metas>>                                              *)
(* Everything is a number, explained below.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Named == 1
Tuple == 2
Unit == 3
Enum == 4
Union == 5
Ser == 1
De == 2

(* ---- members -------------------------------------------------------- *)
(* Fields: 1 a  2 r#type  3 e'  4 value  5 b, of a type mentioning Self    *)
(* 6 data  7 state  8 not there: #[cfg(any())]                             *)
(* Variants: 1 A  2 r#fn  3 B = 7  4 D(u8)  5 F { x: u8 }  6 G()  7 H {}   *)
(* 8 not there: #[cfg(any())] D(u8)  9 s                                   *)
(* The names of fields and variants, numbered in the same list as what     *)
(* they can be renamed to.                                                 *)
FieldName == <<1, 4, 5, 6, 2, 13, 14, 0>>
VariantName == <<10, 12, 11, 16, 17, 18, 19, 0, 20>>
Gone(m) == m = 8
UnitVariant(m) == m \in {1, 2, 3, 9}

(* ---- attributes ------------------------------------------------------ *)
(* A meta item inside #[serde(...)]: 1 rename = "x"  2 rename = ""         *)
(* 3 rename = r#"a"b\"#  4 rename = "r#type"  5 rename = "\u{e9}x"         *)
(* 6 rename = 1  7 rename = b"x"  8 rename  9 rename("x")  10 default      *)
(* 11 alias = "x"  12 a::rename = "x"  13 skip  14 rename = 'x'            *)
(* 15 rename = concat!("x")  16 rename_all = "x"  17 rename = c"x"         *)
(* 18 rename = true  19 rename = x                                         *)
RenameTo == <<7, 8, 9, 3, 15>>
IsRename(m) == m <= Len(RenameTo)
METAS == 19
(* Forms: 1 #[serde(metas)]  2 #[serde(metas,)]                            *)
(* 3 #[cfg_attr(all(), serde(metas))]  4 #[cfg_attr(any(), serde(metas))]  *)
(* 5 #[serde]  6 #[serde = "x"]  7 #[doc = "x"]  8 #[allow(unused)]        *)
(* 9 #[serde[metas]]  10 #[serde{metas}]: the same as 1                    *)
Live(f) == f \in {1, 2, 3, 5, 6, 9, 10}
Listed(f) == f <= 4 \/ f \in {9, 10}

(* ---- the item as a whole --------------------------------------------- *)
Kind(t) == t[1]
Trait(t) == t[2]
Context(t) == t[3]
ItemAttr(t) == t[4]
Generics(t) == t[5]
Members(t) == t[6]

(* Item attributes: 0 none  1 repr(C)  2 a comment and deprecated          *)
(* 3 non_exhaustive  4 serde(rename_all = "camelCase")                     *)
(* 5 serde(rename = "x")  6 serde(default)                                 *)
IsSerde(a) == a \in 4..6
(* Generics: 1 T  2 U: Clone  3 D = u8  4 'a  5 'b, 'c: 'b                 *)
(* 6 const N: usize  7 const M: usize = 3  8 V where V: Copy  9 W: ?Sized  *)
(* 10 where Self: Mark  11 I: Iterator where I::Item: the trait            *)
(* 12 where u8: Copy                                                       *)
GENERICS == 12

Present(ms) == SelectSeq(ms, LAMBDA m : ~Gone(m[1]))
LiveAttrs(m) == SelectSeq(m[2], LAMBDA a : Live(a[1]))
Metas(m) == FoldLeft(LAMBDA acc, a : acc \o a[2], <<>>, LiveAttrs(m))

(* At most one rename to a string, and nothing else.                       *)
AttrsOk(m) == /\ \A k \in 1..Len(LiveAttrs(m)) : Listed(LiveAttrs(m)[k][1])
              /\ Len(Metas(m)) <= 1
              /\ \A k \in 1..Len(Metas(m)) : IsRename(Metas(m)[k])

Accept(t) ==
  /\ ~IsSerde(ItemAttr(t))
  /\ \/ Kind(t) = Named
     \/ /\ Kind(t) = Enum
        /\ Generics(t) = <<>>
        /\ \A k \in 1..Len(Present(Members(t))) : UnitVariant(Present(Members(t))[k][1])
  /\ \A k \in 1..Len(Present(Members(t))) : AttrsOk(Present(Members(t))[k])

NameOf(t, m) == IF Metas(m) # <<>> THEN RenameTo[Metas(m)[1]]
                ELSE IF Kind(t) = Named THEN FieldName[m[1]] ELSE VariantName[m[1]]
Names(t) == [k \in 1..Len(Present(Members(t))) |-> NameOf(t, Present(Members(t))[k])]

(* ---- building items, a feature at a time ------------------------------ *)
Start == {<<k, r, 1, 0, <<>>, <<>>>> : k \in {Named, Tuple, Unit, Enum, Union}, r \in {Ser, De}}

FieldsOf(k) == CASE k = Named -> 1..8 [] k = Tuple -> {1, 2} [] k = Enum -> 1..9 [] k = Union -> {1, 2} [] OTHER -> {}
GenericsOf(t) ==
  CASE Kind(t) = Named -> IF Trait(t) = Ser THEN 1..12 ELSE (1..12) \ {9}
    [] Kind(t) = Enum -> {1, 6, 7, 12}
    [] OTHER -> {1, 6}
LastM(t) == Members(t)[Len(Members(t))]

AddMember(t) == {[t EXCEPT ![6] = Append(@, <<m, <<>>>>)] : m \in FieldsOf(Kind(t)) \ {x[1] : x \in Range(Members(t))}}
AddGeneric(t) == {[t EXCEPT ![5] = Append(@, g)] : g \in {x \in GenericsOf(t) : Generics(t) = <<>> \/ x > Generics(t)[Len(Generics(t))]}}
SetContext(t) == IF Context(t) = 1 THEN {[t EXCEPT ![3] = c] : c \in 2..7} ELSE {}
SetItemAttr(t) == IF ItemAttr(t) = 0 THEN {[t EXCEPT ![4] = a] : a \in (IF Kind(t) = Enum THEN 2..6 ELSE IF Kind(t) = Union THEN {2, 5} ELSE 1..6)} ELSE {}
(* Attributes are added to the last member.                                *)
WithLast(t, as) == [t EXCEPT ![6][Len(t[6])][2] = as]
(* All metas where a plain attribute comes first; a few elsewhere.         *)
Few == {1, 4, 8, 10, 11}
FirstOf(t, f) == IF LastM(t)[2] = <<>> /\ f = 1 THEN 1..METAS ELSE IF LastM(t)[2] = <<>> THEN Few ELSE Few \ {4, 8}
AddAttr(t) ==
  IF Members(t) = <<>> \/ Kind(t) \notin {Named, Enum} THEN {}
  ELSE {WithLast(t, Append(LastM(t)[2], <<f, <<>>>>)) : f \in 5..8}
       \cup UNION {{WithLast(t, Append(LastM(t)[2], <<f, <<m>>>>)) : m \in FirstOf(t, f)} : f \in 1..4}
       \cup {WithLast(t, Append(LastM(t)[2], <<f, <<m>>>>)) : f \in {9, 10}, m \in {3, 8}}
AddMeta(t) ==
  IF Members(t) = <<>> \/ LastM(t)[2] = <<>> THEN {}
  ELSE LET as == LastM(t)[2]
           a == as[Len(as)]
       IN IF Listed(a[1]) THEN {WithLast(t, [as EXCEPT ![Len(as)] = <<a[1], Append(a[2], m)>>]) : m \in Few} ELSE {}

(* Two members of one name are nobody's concern here.                      *)
Distinct(t) == Accept(t) => Cardinality(Range(Names(t))) = Len(Names(t))
Grow(t) == {n \in AddMember(t) \cup AddGeneric(t) \cup SetContext(t) \cup SetItemAttr(t) \cup AddAttr(t) \cup AddMeta(t) : Distinct(n)}

Encode(t) == <<t[1], t[2], t[3], t[4], Len(t[5])>> \o t[5] \o <<Len(t[6])>>
             \o FoldLeft(LAMBDA acc, m : acc \o <<m[1], Len(m[2])>>
                           \o FoldLeft(LAMBDA ac, a : ac \o <<a[1], Len(a[2])>> \o a[2], <<>>, m[2]), <<>>, t[6])
=============================================================================
