------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Interaction stores: what was added, in whatever order and orientation,  *)
(* and the energies that follow from it.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Weights, Depth, Values
Ws == {-1, 2}
Few == {<<1, 0>>, <<1, -1>>, <<3, -2>>}

VARIABLES adds,     \* history: <<i, j, w>>
          tri,      \* a triangular matrix, row by row
          map       \* term -> weight
vars == <<adds, tri, map>>

V == 0..N - 1
Place(i, j) == IF i <= j THEN (j * (j + 1)) \div 2 + i ELSE (i * (i + 1)) \div 2 + j
Init == /\ adds = <<>> /\ tri = [k \in 0..((N * (N + 1)) \div 2) - 1 |-> 0] /\ map = [t \in {} |-> 0]

Next == /\ Len(adds) < Depth
        /\ \E i \in V, j \in V, w \in Weights :
             /\ adds' = Append(adds, <<i, j, w>>)
             /\ tri' = [tri EXCEPT ![Place(i, j)] = @ + w]
             /\ map' = [t \in DOMAIN map \cup {{i, j}} |->
                          (IF t \in DOMAIN map THEN map[t] ELSE 0) + (IF t = {i, j} THEN w ELSE 0)]
Spec == Init /\ [][Next]_vars

Terms == {{i, j} : i \in V, j \in V}
MinOf(S) == CHOOSE m \in S : \A n \in S : m <= n
MaxOf(S) == CHOOSE m \in S : \A n \in S : n <= m
At(t) == tri[Place(MinOf(t), MaxOf(t))]
RECURSIVE SumFrom(_, _)
SumFrom(k, t) == IF k > Len(adds) THEN 0
                 ELSE (IF {adds[k][1], adds[k][2]} = t THEN adds[k][3] ELSE 0) + SumFrom(k + 1, t)

\* Both stores hold the accumulated weights.
Accumulates == \A t \in Terms : /\ At(t) = SumFrom(1, t)
                                /\ (IF t \in DOMAIN map THEN map[t] ELSE 0) = SumFrom(1, t)
                                /\ (t \in DOMAIN map) = (\E k \in 1..Len(adds) : {adds[k][1], adds[k][2]} = t)

(***************************************************************************)
(* Energies over two-valued variables: values <<true, false>>.             *)
(***************************************************************************)
RECURSIVE Prod(_, _)
Prod(S, f) == IF S = {} THEN 1 ELSE LET a == CHOOSE a \in S : TRUE IN f[a] * Prod(S \ {a}, f)
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET a == CHOOSE a \in S : TRUE IN f[a] + Sum(S \ {a}, f)
Energy(val, x) ==
  LET f == [a \in V |-> IF x[a] = 1 THEN val[1] ELSE val[2]]
  IN Sum(DOMAIN map, [t \in DOMAIN map |-> map[t] * Prod(t, f)])
Flip(x, a) == [x EXCEPT ![a] = 1 - @]
\* The local field by the terms that contain the variable.
Field(val, x, a) ==
  LET f == [b \in V |-> IF x[b] = 1 THEN val[1] ELSE val[2]]
      d == IF x[a] = 1 THEN val[2] - val[1] ELSE val[1] - val[2]
  IN Sum({t \in DOMAIN map : a \in t}, [t \in DOMAIN map |-> d * map[t] * Prod(t \ {a}, f)])
LocalField == \A val \in Values : \A x \in [V -> {0, 1}] : \A a \in V :
                Field(val, x, a) = Energy(val, Flip(x, a)) - Energy(val, x)

Dump == Len(adds) = Depth => PrintT(<<"BEH", ToJson(adds)>>)
=============================================================================
