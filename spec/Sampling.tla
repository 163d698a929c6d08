------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* One generation of samples run in parallel.  Samplers are made one after *)
(* the other (making one may fail); W workers take the samplers in any     *)
(* order, each run ends in an answer or a failure, in any order; a failure *)
(* may stop workers from taking more.  The caller joins them all, then     *)
(* picks a lowest answer.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* samplers
          W,        \* workers
          MakeFails \* may making a sampler fail

S == 1..N
Outcomes == {"low", "high", "fail"}

VARIABLES fate,     \* what every sampler is going to do
          made,     \* samplers made
          bad,      \* the sampler that could not be made (0: none)
          run,      \* running
          done,     \* the order in which the samplers ended
          out       \* <<>>, <<"ok", sampler>> or <<"err", sampler>>
vars == <<fate, made, bad, run, done, out>>

Range(q) == {q[i] : i \in 1..Len(q)}
Failed == {i \in Range(done) : fate[i] = "fail"}

Init == /\ fate \in [S -> Outcomes] /\ made = 0 /\ bad = 0 /\ run = {} /\ done = <<>> /\ out = <<>>

Make == /\ out = <<>> /\ made < N /\ bad = 0
        /\ \/ made' = made + 1 /\ bad' = 0
           \/ MakeFails /\ bad' = made + 1 /\ made' = made
        /\ UNCHANGED <<fate, run, done, out>>

GiveUp == bad # 0 /\ out = <<>> /\ out' = <<"err", bad>> /\ UNCHANGED <<fate, made, bad, run, done>>

Take(i) == /\ made = N /\ out = <<>> /\ Cardinality(run) < W
           /\ i \notin run \cup Range(done)
           /\ run' = run \cup {i}
           /\ UNCHANGED <<fate, made, bad, done, out>>

Finish(i) == /\ i \in run /\ run' = run \ {i} /\ done' = Append(done, i)
             /\ UNCHANGED <<fate, made, bad, out>>

\* The caller goes on when all are over, or some failed and none is running.
Join ==
  /\ made = N /\ out = <<>> /\ run = {}
  /\ IF Failed # {}
     THEN \E i \in Failed : out' = <<"err", i>>
     ELSE /\ Range(done) = S
          /\ LET low == {i \in S : fate[i] = "low"}
             IN \E i \in (IF low # {} THEN low ELSE S) : out' = <<"ok", i>>
  /\ UNCHANGED <<fate, made, bad, run, done>>

Next == Make \/ GiveUp \/ Join \/ \E i \in S : Take(i) \/ Finish(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Nothing is lost: an answer means that every sampler answered.
Whole == (out # <<>> /\ out[1] = "ok") => Range(done) = S /\ Failed = {} /\ Len(done) = N
Lowest == (out # <<>> /\ out[1] = "ok") => (fate[out[2]] = "high" => \A i \in S : fate[i] # "low")
Honest == (out # <<>> /\ out[1] = "err") => (IF bad # 0 THEN out[2] = bad ELSE fate[out[2]] = "fail")
NeverSwallowed == (out # <<>> /\ Failed # {}) => out[1] = "err"
Bounded == Cardinality(run) <= W
Terminates == <>(out # <<>>)

\* Every complete order of endings, with every fate, and failures of making.
Dump == (out # <<>> /\ (bad # 0 \/ Len(done) = N)) =>
          PrintT(<<"BEH", ToJson([fate |-> fate, order |-> done, bad |-> bad])>>)
=============================================================================
