------------------------------ MODULE NodeSets ------------------------------
(***************************************************************************)
(* Sets of node indices in three representations: an ordered set, a sorted *)
(* list and a sorted pair (a single index stored twice).  Whatever order   *)
(* the indices are given in, the representation stands for the same set.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Nodes, MaxLen
VARIABLES a, b
vars == <<a, b>>

Range(q) == {q[j] : j \in 1..Len(q)}
Distinct(q) == Cardinality(Range(q)) = Len(q)
Inputs == UNION {{q \in [1..n -> Nodes] : Distinct(q)} : n \in 0..MaxLen}

Init == a \in Inputs /\ b \in Inputs
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

MinOf(S) == CHOOSE m \in S : \A n \in S : m <= n
\* Insertion from the front, as a list is sorted.
RECURSIVE Put(_, _)
Put(x, q) == IF q = <<>> THEN <<x>>
             ELSE IF x <= Head(q) THEN <<x>> \o q ELSE <<Head(q)>> \o Put(x, Tail(q))
RECURSIVE Sort(_)
Sort(q) == IF q = <<>> THEN <<>> ELSE Put(Head(q), Sort(Tail(q)))

\* <<can be built, representation>>
Pair(q) == LET t == Sort(q) IN
           IF Len(t) = 1 THEN <<TRUE, <<t[1], t[1]>>>>
           ELSE IF Len(t) = 2 THEN <<TRUE, t>> ELSE <<FALSE, <<>>>>
PairSet(p) == IF p[1] = p[2] THEN {p[1]} ELSE {p[1], p[2]}
PairLen(p) == IF p[1] = p[2] THEN 1 ELSE 2

ListLaw == /\ Range(Sort(a)) = Range(a) /\ Len(Sort(a)) = Cardinality(Range(a))
           /\ \A k \in 1..Len(a) - 1 : Sort(a)[k] < Sort(a)[k + 1]
           /\ (Sort(a) = Sort(b)) = (Range(a) = Range(b))
PairLaw == /\ Pair(a)[1] = (Cardinality(Range(a)) \in {1, 2})
           /\ Pair(a)[1] => /\ PairSet(Pair(a)[2]) = Range(a)
                            /\ PairLen(Pair(a)[2]) = Cardinality(Range(a))
           /\ (Pair(a)[1] /\ Pair(b)[1]) => ((Pair(a)[2] = Pair(b)[2]) = (Range(a) = Range(b)))
Dump == PrintT(<<"BEH", ToJson(<<a, b>>)>>)
=============================================================================
