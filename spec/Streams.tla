------------------------------ MODULE Streams -------------------------------
(***************************************************************************)
(* Where the runs of a solve get their random numbers from.  A run makes a *)
(* generator of its own from a seed that nobody has taken before, or the   *)
(* runs take turns at a common one; W of them work at a time, a run may    *)
(* end early.  No number is ever drawn twice.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,        \* runs
          W,        \* at a time
          D         \* numbers a run draws at most

R == 1..N
VARIABLES gen,      \* the generator of a run: 0 none, 1 the common one, others its own
          pos,      \* where each generator is
          got,      \* the numbers a run has drawn: <<generator, position>>
          over
vars == <<gen, pos, got, over>>

G == 1..(N + 1)
Running == {r \in R : gen[r] # 0 /\ ~over[r]}
Taken == {gen[r] : r \in R}

Init == /\ gen = [r \in R |-> 0] /\ pos = [g \in G |-> 0]
        /\ got = [r \in R |-> <<>>] /\ over = [r \in R |-> FALSE]

Own(r) == /\ gen[r] = 0 /\ Cardinality(Running) < W
          /\ LET g == CHOOSE g \in G \ (Taken \cup {1}) : \A h \in G \ (Taken \cup {1}) : g <= h
             IN gen' = [gen EXCEPT ![r] = g]
          /\ UNCHANGED <<pos, got, over>>
Common(r) == /\ gen[r] = 0 /\ Cardinality(Running) < W
             /\ gen' = [gen EXCEPT ![r] = 1] /\ UNCHANGED <<pos, got, over>>
Draw(r) == /\ r \in Running /\ Len(got[r]) < D
           /\ got' = [got EXCEPT ![r] = Append(@, <<gen[r], pos[gen[r]]>>)]
           /\ pos' = [pos EXCEPT ![gen[r]] = @ + 1]
           /\ UNCHANGED <<gen, over>>
Finish(r) == r \in Running /\ over' = [over EXCEPT ![r] = TRUE] /\ UNCHANGED <<gen, pos, got>>

Next == \E r \in R : Own(r) \/ Common(r) \/ Draw(r) \/ Finish(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Drawn(r) == {got[r][k] : k \in 1..Len(got[r])}
Apart == \A r, q \in R : r # q => Drawn(r) \cap Drawn(q) = {}
Once == \A r \in R : Cardinality(Drawn(r)) = Len(got[r])
\* so what two runs draw first tells them apart
First == \A r, q \in R : (r # q /\ got[r] # <<>> /\ got[q] # <<>>) => got[r][1] # got[q][1]
Bounded == Cardinality(Running) <= W
OnWard == [][\A g \in G : pos'[g] >= pos[g]]_vars
Terminates == <>(\A r \in R : over[r])
=============================================================================
