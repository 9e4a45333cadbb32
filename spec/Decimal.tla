------------------------------ MODULE Decimal ------------------------------
(***************************************************************************)
(* Exact decimal arithmetic on digit sequences.                            *)
(*                                                                         *)
(* TLC's integers are 32 bits wide, and the properties of this system talk *)
(* about u64, i64 and f64.  Every numeric quantity is therefore a sequence *)
(* of decimal digits, most significant first, without leading zeros (zero  *)
(* is the empty sequence); a real number is a pair  <<digits, exponent>>   *)
(* that stands for digits * 10^exponent.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt

Strip(d) == IF d = <<>> \/ d[1] # 0 THEN d
            ELSE LET k == SelectInSeq(d, LAMBDA x : x # 0) IN
                 IF k = 0 THEN <<>> ELSE SubSeq(d, k, Len(d))

(* Without the zeros at its end, should it be long.                        *)
Short(d) == IF Len(d) < 400 THEN d ELSE SubSeq(d, 1, SelectLastInSeq(d, LAMBDA x : x # 0))

(* Digit i of d, with an endless tail of zeros.                            *)
DigitAt(d, i) == IF i <= Len(d) THEN d[i] ELSE 0

RECURSIVE CmpFrom(_, _, _, _)
CmpFrom(a, b, i, n) ==
  IF i > n THEN 0
  ELSE LET x == DigitAt(a, i)
           y == DigitAt(b, i)
       IN IF x = y THEN CmpFrom(a, b, i + 1, n)
          ELSE IF x < y THEN -1 ELSE 1

Max2(a, b) == IF a > b THEN a ELSE b

(* -1, 0, 1: order of two stripped natural numbers.                        *)
CmpNat(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1
                ELSE CmpFrom(a, b, 1, Len(a))

NatLeq(a, b) == CmpNat(a, b) <= 0

(* Order of two decimals <<digits, exponent>> with stripped digits.        *)
CmpDec(x, y) ==
  LET a == x[1]  b == y[1] IN
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
  ELSE IF b = <<>> THEN 1
  ELSE LET ma == Len(a) + x[2]
           mb == Len(b) + y[2]
       IN IF ma < mb THEN -1
          ELSE IF ma > mb THEN 1
          ELSE CmpFrom(Short(a), Short(b), 1, Max2(Len(Short(a)), Len(Short(b))))

DecLeq(x, y) == CmpDec(x, y) <= 0

(* A digit sequence as a (small) TLA+ integer, saturating at 10^8.         *)
RECURSIVE ToIntFrom(_, _, _)
ToIntFrom(d, i, acc) == IF i > Len(d) THEN acc
                        ELSE ToIntFrom(d, i + 1, acc * 10 + d[i])
ToInt(d) == LET s == Strip(d) IN
            IF Len(s) > 8 THEN 100000000 ELSE ToIntFrom(s, 1, 0)

U64MAX == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
I64MAX == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
I64MINABS == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>

(* The band around the largest finite double (1.7976931348623157e308) in   *)
(* which an implementation that is accurate to a few units in the last     *)
(* place may go either way.                                                *)
F64SURE == <<<<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5>>, 293>>
F64OVER == <<<<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,7>>, 293>>
=============================================================================
