------------------------------- MODULE Starts -------------------------------
(***************************************************************************)
(* A start state of n variables made of random words of B bits.  Words     *)
(* come one by one; what lies beyond n is dropped.  Every state has the    *)
(* same number of word sequences that lead to it: any start is possible,   *)
(* every variable is up in half of them, any two variables are independent.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS B,        \* bits of a word
          MaxN

VARIABLES n, words, x
vars == <<n, words, x>>

RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
Words == 0..(Pow(B) - 1)
Need(k) == (k + B - 1) \div B
Bit(w, i) == (w \div Pow(i)) % 2
Of(ws, k) == [i \in 1..k |-> Bit(ws[((i - 1) \div B) + 1], (i - 1) % B)]

Init == n \in 0..MaxN /\ words = <<>> /\ x = <<>>
Word == /\ Len(words) < Need(n) /\ \E w \in Words : words' = Append(words, w) /\ UNCHANGED <<n, x>>
Make == /\ Len(words) = Need(n) /\ x = <<>> /\ n > 0 /\ x' = Of(words, n) /\ UNCHANGED <<n, words>>
Next == Word \/ Make
Spec == Init /\ [][Next]_vars

All(k) == [1..Need(k) -> Words]
Hits(k, P(_)) == Cardinality({ws \in All(k) : P(Of(ws, k))})

\* Checked once for every n, in its first state.
AtStart == words = <<>> /\ n > 0
Even == AtStart => \A y \in [1..n -> {0, 1}] :
          Hits(n, LAMBDA z : z = y) * Pow(n) = Pow(B * Need(n))
Half == AtStart => \A i \in 1..n : 2 * Hits(n, LAMBDA z : z[i] = 1) = Pow(B * Need(n))
Pairs == AtStart => \A i, j \in 1..n : i < j =>
           2 * Hits(n, LAMBDA z : z[i] = z[j]) = Pow(B * Need(n))
Fits == x # <<>> => Len(x) = n /\ \A i \in 1..n : x[i] \in {0, 1}
=============================================================================
