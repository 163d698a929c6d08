------------------------------ MODULE Convert -------------------------------
(***************************************************************************)
(* Conversions between number types.                                       *)
(*                                                                         *)
(* Small types (a few bits wide, numbers scaled by U) are converted as the *)
(* casts of the language do it: integers wrap, floats round to the nearest *)
(* even, floats to integers truncate and saturate.  The laws hold for all  *)
(* of their values.  For the real types the places where something can go  *)
(* wrong are enumerated and printed, to be converted by the library.       *)
(***************************************************************************)
EXTENDS Num, TLC, Json

CONSTANTS Lengths, Widths
Ls == {1, 2, 6, 7, 8, 14, 15, 16, 23, 24, 25, 30, 31, 32, 52, 53, 54, 62, 63, 64, 126, 127}
LsAll == 1..127
Ws == {2, 3, 4}
WsAll == {2, 3, 4, 5}

VARIABLES st
vars == <<st>>

(***************************************************************************)
(* Small types.                                                            *)
(***************************************************************************)
U == 4
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Small == [k : {"int"}, w : Widths] \cup [k : {"flt"}, p : {2, 3}, e : {2, 3}]
Vals(t) ==
  IF t.k = "int" THEN {U * n : n \in -P2(t.w - 1)..(P2(t.w - 1) - 1)}
  ELSE {x \in {m * P2(e) : m \in -(P2(t.p) - 1)..(P2(t.p) - 1), e \in 0..t.e} : TRUE}
Abs(n) == IF n < 0 THEN -n ELSE n
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
Wrap(n, w) == ((n + P2(w - 1)) % P2(w)) - P2(w - 1)
Trunc(n) == IF n >= 0 THEN n \div U ELSE -((-n) \div U)
\* Digits of the mantissa below the leading one decide what is even.
Even(t, x) == \E e \in 0..t.e : \E m \in -(P2(t.p) - 1)..(P2(t.p) - 1) :
                 x = m * P2(e) /\ m % 2 = 0
As(t, r, n) ==
  IF r.k = "int"
  THEN IF t.k = "int" THEN U * Wrap(n \div U, r.w)
       ELSE LET x == U * Trunc(n) IN
            IF x > MaxOf(Vals(r)) THEN MaxOf(Vals(r)) ELSE IF x < MinOf(Vals(r)) THEN MinOf(Vals(r)) ELSE x
  ELSE LET near == {x \in Vals(r) : \A y \in Vals(r) : Abs(x - n) <= Abs(y - n)}
           ev == {x \in near : Even(r, x)}
       IN IF Cardinality(near) = 1 \/ ev = {} THEN CHOOSE x \in near : TRUE ELSE CHOOSE x \in ev : TRUE

(***************************************************************************)
(* Numbers of the real types.                                              *)
(***************************************************************************)
Ends(n) == [i \in 1..n |-> IF i \in {1, n} THEN 1 ELSE 0]
Alt(n) == [i \in 1..n |-> IF i = n THEN 1 ELSE i % 2]
Exps == {0, 1, 2, 6, 7, 8, 15, 16, 23, 31, 32, 62, 63, 64, 100, 104, 126, 127, -1, -2, -24, -52, -126, -149, -1074,
         -1022, 971, 1000, 1023}

Init ==
  \/ \E t \in Small : \E n \in Vals(t) : st = [m |-> "small", t |-> t, n |-> n]
  \/ \E t \in Types, g \in {0, 1}, e \in Exps, b \in UNION {{Ones(n), Ends(n), Alt(n)} : n \in Lengths} :
       /\ Represents(t, <<g, e, b>>)
       /\ st = [m |-> "real", t |-> t, v |-> <<g, e, b>>]
  \/ \E t \in Types : st = [m |-> "real", t |-> t, v |-> <<0, 0, <<>>>>]
  \/ \E t \in Types, g \in {0, 1} : IsFloat(t) /\ st = [m |-> "real", t |-> t, v |-> <<g, Inf, <<1>>>>]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Preserve == st.m = "small" => \A r \in Small : st.n \in Vals(r) => As(st.t, r, st.n) = st.n
ThereAndBack == st.m = "small" => \A r \in Small :
                  st.n \in Vals(r) => As(r, st.t, As(st.t, r, st.n)) = st.n
Common == st.m = "small" => \A r, q \in Small :
            (st.n \in Vals(r) /\ st.n \in Vals(q)) => As(r, q, As(st.t, r, st.n)) = As(st.t, q, st.n)
Into == st.m = "small" => \A r \in Small : As(st.t, r, st.n) \in Vals(r)
Monotone == st.m = "small" => \A r \in Small : \A n \in Vals(st.t) :
              (st.n <= n /\ (r.k = "flt" \/ st.t.k = "flt")) => As(st.t, r, st.n) <= As(st.t, r, n)
Odd == st.m = "real" => \/ Zero(st.v)
                        \/ st.v[3][1] = 1 /\ st.v[3][Len(st.v[3])] = 1
Dump == st.m = "real" => PrintT(<<"BEH", ToJson([t |-> st.t, v |-> st.v])>>)
=============================================================================
