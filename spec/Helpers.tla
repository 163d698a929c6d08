------------------------------ MODULE Helpers -------------------------------
(***************************************************************************)
(* Pairs of numbers of one type: their order, the smaller, the larger, the *)
(* magnitude.  The order by digits is compared, where the numbers are      *)
(* small, with the order of integers.                                      *)
(***************************************************************************)
EXTENDS Num, TLC, Json

CONSTANTS Ls, Es

Few == {1, 2, 7, 23, 24, 31, 53, 63}
Many == {1, 2, 3, 6, 7, 8, 15, 16, 23, 24, 30, 31, 32, 52, 53, 54, 62, 63, 64, 126, 127}
FewE == {0, 1, 7, 8, 63, 127} \cup {-149, -1, 104, 971, 1023}
ManyE == {0, 1, 2, 6, 7, 8, 15, 16, 23, 31, 32, 62, 63, 64, 100, 104, 126, 127, -1, -2, -24, -52, -126, -149, -1074, 971, 1023}
Small == -9..9

Ends(n) == [i \in 1..n |-> IF i \in {1, n} THEN 1 ELSE 0]
Numbers(t) ==
  {v \in {<<g, e, b>> : g \in {0, 1}, e \in Es, b \in UNION {{Ones(n), Ends(n)} : n \in Ls}} : Represents(t, v)}
  \cup {Nil} \cup (IF IsFloat(t) THEN {<<g, Inf, <<1>>>> : g \in {0, 1}} ELSE {})

\* The number of an integer
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN <<>> ELSE Append(Bits(n \div 2), n % 2)
RECURSIVE Odd(_, _)
Odd(n, e) == IF n % 2 = 1 THEN <<e, Bits(n)>> ELSE Odd(n \div 2, e + 1)
NumberOf(n) == IF n = 0 THEN Nil ELSE LET o == Odd(IF n < 0 THEN -n ELSE n, 0) IN <<IF n < 0 THEN 1 ELSE 0, o[1], o[2]>>

VARIABLES t, a, b
vars == <<t, a, b>>
Init == \/ t \in Types /\ a \in Numbers(t) /\ b \in Numbers(t)
        \/ t = "small" /\ a \in Small /\ b \in Small
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Real == t # "small"
Trichotomy == Real =>
  /\ Less(a, b) => (~Less(b, a) /\ ~Same(a, b))
  /\ Same(a, b) => ~Less(b, a)
  /\ (Less(a, b) \/ Same(a, b) \/ Less(b, a))
Agrees == ~Real => Less(NumberOf(a), NumberOf(b)) = (a < b)
Extremes == Real => /\ Represents(t, Highest(t)) /\ Represents(t, Lowest(t))
                    /\ a[2] # Inf => (~Less(Highest(t), a) /\ ~Less(a, Lowest(t)))
Helped == Real => /\ Smaller(a, b) \in {a, b} /\ ~Less(a, Smaller(a, b)) /\ ~Less(b, Smaller(a, b))
                  /\ Larger(a, b) \in {a, b} /\ ~Less(Larger(a, b), a) /\ ~Less(Larger(a, b), b)
                  /\ ~Neg(Magnitude(a)) /\ ~MagLess(a, Magnitude(a)) /\ ~MagLess(Magnitude(a), a)
Dump == Real => PrintT(<<"BEH", ToJson([t |-> t, a |-> a, b |-> b])>>)
=============================================================================
