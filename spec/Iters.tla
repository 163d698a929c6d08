------------------------------- MODULE Iters --------------------------------
(***************************************************************************)
(* The enumerations of pairs and neighbours, written as the small machines *)
(* they are: a cursor and a successor.  Laws: everything appears, once,    *)
(* and the end is final; the storage of a pair is its own.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN, Steps

Kinds == {"prods", "neighbors", "edges", "open"}

VARIABLES kind, n, u, cur, seen, over, k
vars == <<kind, n, u, cur, seen, over, k>>

Init == /\ kind \in Kinds /\ n \in 0..MaxN
        /\ u \in IF kind = "neighbors" THEN 0..MaxN ELSE {0}
        /\ (kind = "neighbors" => u < n) /\ (kind = "open" => n = 0)
        /\ cur = (IF kind = "edges" \/ kind = "open" THEN <<0, 1>> ELSE <<0>>)
        /\ seen = <<>> /\ over = FALSE /\ k = 0

Give(t, c) == seen' = Append(seen, t) /\ cur' = c /\ over' = over
Stop == seen' = seen /\ cur' = cur /\ over' = TRUE

\* Single variables first, then pairs row by row.
StepProds ==
  IF Len(cur) = 1
  THEN IF cur[1] < n THEN Give({cur[1]}, <<cur[1] + 1>>)
       ELSE IF n < 2 THEN Stop ELSE Give({0, 1}, <<0, 2>>)
  ELSE IF cur[2] < n THEN Give({cur[1], cur[2]}, <<cur[1], cur[2] + 1>>)
       ELSE IF cur[1] + 2 < n THEN Give({cur[1] + 1, cur[1] + 2}, <<cur[1] + 1, cur[1] + 3>>)
       ELSE Stop
StepNeighbors == IF cur[1] < n THEN Give({u, cur[1]}, <<cur[1] + 1>>) ELSE Stop
\* Pairs column by column: reaches every pair even without an end.
StepEdges(bounded) ==
  IF bounded /\ cur[2] >= n THEN Stop
  ELSE Give({cur[1], cur[2]}, IF cur[1] + 1 < cur[2] THEN <<cur[1] + 1, cur[2]>> ELSE <<0, cur[2] + 1>>)

Next == /\ k < Steps /\ k' = k + 1
        /\ CASE kind = "prods" -> StepProds
             [] kind = "neighbors" -> StepNeighbors
             [] kind = "edges" -> StepEdges(TRUE)
             [] kind = "open" -> StepEdges(FALSE)
        /\ UNCHANGED <<kind, n, u>>
Spec == Init /\ [][Next]_vars

Range(q) == {q[i] : i \in 1..Len(q)}
Pairs(m) == {s \in SUBSET (0..m - 1) : Cardinality(s) = 2}
All == CASE kind = "prods" -> Pairs(n) \cup {{i} : i \in 0..n - 1}
         [] kind = "neighbors" -> {{u, i} : i \in 0..n - 1}
         [] OTHER -> Pairs(n)

Once == Cardinality(Range(seen)) = Len(seen)
Right == kind # "open" => Range(seen) \subseteq All
Complete == over => Range(seen) = All
StaysOver == [][over => over' /\ seen' = seen]_vars
Soon == (kind # "open" /\ k > Cardinality(All)) => over
Reaches == (kind = "open") => /\ ~over /\ \A q \in 2..MaxN : q * (q - 1) <= 2 * k => Pairs(q) \subseteq Range(seen)

\* The place of a pair in the triangular store.
Place(s) == LET j == CHOOSE j \in s : \A i \in s : i <= j
                i == CHOOSE i \in s : \A l \in s : i <= l
            IN (j * (j + 1)) \div 2 + i
Tri == LET A == Pairs(n) \cup {{i} : i \in 0..n - 1}
       IN /\ \A s, t \in A : s # t => Place(s) # Place(t)
          /\ \A s \in A : Place(s) < (n * (n + 1)) \div 2
          /\ Cardinality(A) = (n * (n + 1)) \div 2
=============================================================================
