-------------------------------- MODULE Num ---------------------------------
(***************************************************************************)
(* Numbers of the supported types.  A number is sign, exponent and the     *)
(* digits of an odd mantissa (most significant first): sgn * bits * 2^e.   *)
(* Zero has no digits; an infinity has the exponent Inf.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Inf == 99999
Types == {"i8", "i16", "i32", "i64", "i128", "f32", "f64"}
IsFloat(t) == t \in {"f32", "f64"}
Width(t) == CASE t = "i8" -> 8 [] t = "i16" -> 16 [] t = "i32" -> 32 [] t = "i64" -> 64 [] OTHER -> 128
Digits(t) == IF t = "f32" THEN 24 ELSE 53
LowExp(t) == IF t = "f32" THEN -149 ELSE -1074
HighExp(t) == IF t = "f32" THEN 127 ELSE 1023

\* v = <<negative?, e, digits>>
Zero(v) == v[3] = <<>>
Represents(t, v) ==
  LET n == Len(v[3]) IN
  IF n = 0 THEN TRUE
  ELSE IF v[2] = Inf THEN IsFloat(t)
  ELSE IF IsFloat(t)
  THEN n <= Digits(t) /\ v[2] >= LowExp(t) /\ v[2] + n - 1 <= HighExp(t)
  ELSE /\ v[2] >= 0
       /\ \/ v[2] + n <= Width(t) - 1
          \/ v[1] = 1 /\ n = 1 /\ v[2] = Width(t) - 1

Same(a, b) == a[2] = b[2] /\ a[3] = b[3] /\ (Zero(a) \/ a[1] = b[1])

\* The order of numbers: infinities outermost, else by the position of the
\* leading digit, then by the digits.
Top(v) == IF v[2] = Inf THEN Inf ELSE v[2] + Len(v[3])
Digit(v, k) == IF k <= Len(v[3]) THEN v[3][k] ELSE 0
MagLess(a, b) ==
  IF Zero(a) \/ Zero(b) THEN Zero(a) /\ ~Zero(b)
  ELSE IF Top(a) # Top(b) THEN Top(a) < Top(b)
  ELSE LET n == IF Len(a[3]) > Len(b[3]) THEN Len(a[3]) ELSE Len(b[3])
           D == {k \in 1..n : Digit(a, k) # Digit(b, k)}
       IN /\ D # {}
          /\ LET k == CHOOSE k \in D : \A j \in D : k <= j IN Digit(a, k) < Digit(b, k)
Neg(v) == ~Zero(v) /\ v[1] = 1
Less(a, b) ==
  IF Neg(a) THEN ~Neg(b) \/ MagLess(b, a)
  ELSE ~Neg(b) /\ MagLess(a, b)
Smaller(a, b) == IF Less(b, a) THEN b ELSE a
Larger(a, b) == IF Less(a, b) THEN b ELSE a
Magnitude(v) == <<0, v[2], v[3]>>
One == <<0, 0, <<1>>>>
Nil == <<0, 0, <<>>>>
Ones(n) == [k \in 1..n |-> 1]
Highest(t) == IF IsFloat(t) THEN <<0, HighExp(t) + 1 - Digits(t), Ones(Digits(t))>> ELSE <<0, 0, Ones(Width(t) - 1)>>
Lowest(t) == IF IsFloat(t) THEN <<1, HighExp(t) + 1 - Digits(t), Ones(Digits(t))>> ELSE <<1, Width(t) - 1, <<1>>>>
=============================================================================
