------------------------------- MODULE Anneal -------------------------------
(***************************************************************************)
(* The annealer: it visits the variables in order, sweep after sweep, and  *)
(* keeps what every flip would cost up to date instead of computing it.    *)
(* TLC goes through every model, every start and every outcome of the      *)
(* random decisions within the bounds and checks that the kept costs are   *)
(* the true ones; every finished run is replayed on the real annealer.     *)
(*                                                                         *)
(* Every number below is an integer; a model is h (linear), J (pairs).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, LinW, PairW, Sweeps, Starts

W1 == {-1, 0, 1}
W2 == {-2, -1, 0, 1, 2}
W01 == {0, 1}
W1n == {-1, 1}

VARIABLES h, J,       \* the model
          start, x,   \* states
          ds,         \* kept costs of flipping
          a, k,       \* next variable, sweeps done
          coins,      \* decisions about uphill flips
          last        \* <<variable or 0, cost, taken>> of the last visit
vars == <<h, J, start, x, ds, a, k, coins, last>>

V == 1..N
Pairs == {p \in SUBSET V : Cardinality(p) = 2}

RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN f[b] + Sum(S \ {b}, f)

Energy(s) == Sum(V, [b \in V |-> h[b] * s[b]])
             + Sum(Pairs, [p \in Pairs |-> IF \A b \in p : s[b] = 1 THEN J[p] ELSE 0])
Flip(s, b) == [s EXCEPT ![b] = 1 - @]
Delta(s, b) == Energy(Flip(s, b)) - Energy(s)

\* What the annealer sums up at the beginning.
First(s) == [b \in V |->
  (1 - 2 * s[b]) * (h[b] + Sum(V \ {b}, [c \in V \ {b} |-> J[{b, c}] * s[c]]))]

Init == /\ h \in [V -> LinW] /\ J \in [Pairs -> PairW]
        /\ start \in IF Starts = "all" THEN [V -> {0, 1}] ELSE {[b \in V |-> 0], [b \in V |-> b % 2]}
        /\ x = start /\ ds = First(start) /\ a = 1 /\ k = 0 /\ coins = <<>> /\ last = <<0, 0, FALSE>>

Take ==
  /\ x' = Flip(x, a)
  /\ ds' = [b \in V |-> IF b = a THEN -ds[a]
                        ELSE ds[b] + (IF x'[a] # x[b] THEN 1 ELSE -1) * J[{a, b}]]
Leave == x' = x /\ ds' = ds

Visit ==
  /\ k < Sweeps
  /\ IF ds[a] <= 0
     THEN Take /\ coins' = coins /\ last' = <<a, ds[a], TRUE>>
     ELSE \E c \in {0, 1} :
            /\ coins' = Append(coins, c)
            /\ IF c = 1 THEN Take ELSE Leave
            /\ last' = <<a, ds[a], c = 1>>
  /\ IF a = N THEN a' = 1 /\ k' = k + 1 ELSE a' = a + 1 /\ k' = k
  /\ UNCHANGED <<h, J, start>>

Next == Visit
Spec == Init /\ [][Next]_vars /\ WF_vars(Visit)

(***************************************************************************)
(* Laws.                                                                   *)
(***************************************************************************)
Kept == \A b \in V : ds[b] = Delta(x, b)
\* A visit flips one variable at most, and pays exactly the kept cost.
OneFlip == [][\/ x' = x
              \/ x' = Flip(x, a) /\ Energy(x') = Energy(x) + ds[a]]_vars
\* Downhill flips are always taken; a rise needs a decision.
Greedy == [][(ds[a] <= 0 => x' = Flip(x, a)) /\ (Energy(x') > Energy(x) => coins' # coins)]_vars
\* Without a decision to rise the energy never rises, and a sweep that
\* changes nothing ends in a local minimum.
NoRise == [][(coins' = coins \/ coins'[Len(coins')] = 0) => Energy(x') <= Energy(x)]_vars

\* The hottest temperature is ln 2 / EgMax, the coldest ln 100 / EgMin: no
\* flip costs more than EgMax (it is taken with probability 1/2 at least), and
\* if all weights are multiples of the smallest, no rise is below EgMin (it is
\* taken with probability 1/100 at most).
Abs(n) == IF n < 0 THEN -n ELSE n
Around(b) == Abs(h[b]) + Sum(V \ {b}, [c \in V \ {b} |-> Abs(J[{b, c}])])
MaxOf(S) == CHOOSE m \in S : \A n \in S : n <= m
MinOf(S) == CHOOSE m \in S : \A n \in S : m <= n
EgMax == MaxOf({Around(b) : b \in V})
Weights == {Abs(h[b]) : b \in V} \cup {Abs(J[p]) : p \in Pairs}
Hot == \A b \in V : Delta(x, b) <= EgMax
ColdEnd == (Weights \ {0} # {} /\ \A w \in Weights : w % MinOf(Weights \ {0}) = 0)
             => \A b \in V : Delta(x, b) > 0 => Delta(x, b) >= MinOf(Weights \ {0})
Terminates == <>(k = Sweeps)

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m - 1>> \o SeqOf(S \ {m})
RECURSIVE Listing(_)
Listing(D) == IF D = {} THEN <<>>
              ELSE LET p == CHOOSE p \in D : TRUE
                   IN (IF J[p] = 0 THEN <<>> ELSE <<Append(SeqOf(p), J[p])>>) \o Listing(D \ {p})
Dump == k = Sweeps => PrintT(<<"BEH", ToJson([h |-> h, J |-> Listing(Pairs), start |-> start,
                                              coins |-> coins, end |-> x, sw |-> Sweeps])>>)
=============================================================================
