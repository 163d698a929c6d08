------------------------------ MODULE TAnneal -------------------------------
(***************************************************************************)
(* Validates recorded annealing runs.  The random numbers are scripted, so *)
(* the Metropolis rule determines every state: Sweeps replays it with the  *)
(* true energy change recomputed from the model at each visit.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chk == IOEnv.CHECK
On(S) == Chk \in S \/ Chk = "ALL"

VARIABLES i, s
vars == <<i, s>>

Fresh == [ph |-> "idle"]
Init == i = 1 /\ s = Fresh
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Step == i' = i + 1
Range(q) == {q[j] : j \in 1..Len(q)}

Reset == Is("Reset") /\ Step /\ s' = Fresh
End == Is("End") /\ Step /\ s' = Fresh

(***************************************************************************)
(* A quadratic model over 0/1 variables 1..n: h linear, J symmetric.       *)
(***************************************************************************)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

Model(n, m) ==
  LET w(a, b) == SumSeq([k \in 1..Len(m) |->
                   IF {m[k][1] + 1, m[k][2] + 1} = {a, b} THEN m[k][3] ELSE 0])
      ends(k) == {m[k][1] + 1, m[k][2] + 1}
      adj(a) == UNION {ends(k) : k \in {k \in 1..Len(m) : a \in ends(k)}} \ {a}
  IN [n |-> n, h |-> [a \in 1..n |-> w(a, a)],
      adj |-> [a \in 1..n |-> adj(a)],
      J |-> [a \in 1..n |-> [b \in adj(a) |-> w(a, b)]]]

RECURSIVE SumSet(_, _, _)
SumSet(S, f, x) == IF S = {} THEN 0
                   ELSE LET b == CHOOSE b \in S : TRUE IN f[b] * x[b] + SumSet(S \ {b}, f, x)

Delta(M, x, a) == (1 - 2 * x[a]) * (M.h[a] + SumSet(M.adj[a], M.J[a], x))

RECURSIVE EnergyTo(_, _, _)
EnergyTo(M, x, a) ==
  IF a = 0 THEN 0
  ELSE EnergyTo(M, x, a - 1)
       + x[a] * (M.h[a] + SumSet({b \in M.adj[a] : b < a}, M.J[a], x))
Energy(M, x) == EnergyTo(M, x, M.n)

LocalMin(M, x) == \A a \in 1..M.n : Delta(M, x, a) >= 0
NoTies(M, x) == \A a \in 1..M.n : Delta(M, x, a) # 0

Flip(x, a) == [x EXCEPT ![a] = 1 - @]

(***************************************************************************)
(* Sweeps.  rule = [t |-> T, coins |-> <<>>]: an uphill move is taken iff  *)
(* it is at most T (T < 0: never).  Otherwise the coins decide in turn;    *)
(* pol says whether a coin is tossed at every visit or only when needed.   *)
(***************************************************************************)
RECURSIVE Visit(_, _, _, _)
Visit(M, r, c, a) ==
  IF a > M.n THEN c
  ELSE
    LET d == Delta(M, c.x, a)
        toss == Len(r.coins) > 1 /\ (r.pol = "every" \/ d > 0)
        coin == r.coins[(c.at % Len(r.coins)) + 1] = 1
        go == d <= 0 \/ (IF Len(r.coins) > 1 THEN coin ELSE d <= r.t)
        c2 == [x |-> IF go THEN Flip(c.x, a) ELSE c.x, at |-> IF toss THEN c.at + 1 ELSE c.at]
    IN Visit(M, r, c2, a + 1)

RECURSIVE Sweeps(_, _, _, _)
Sweeps(M, r, c, k) == IF k = 0 THEN c ELSE Sweeps(M, r, Visit(M, r, c, 1), k - 1)

Cold == [t |-> -1, coins |-> <<0>>, pol |-> "uphill"]

(***************************************************************************)
(* Runs observed after every temperature.                                  *)
(***************************************************************************)
Anneal ==
  /\ Is("Anneal") /\ s.ph = "idle" /\ Step
  /\ \E pol \in (IF Len(ev.coins) > 1 THEN {"uphill", "every"} ELSE {"uphill"}) :
       s' = [ph |-> "run", M |-> Model(ev.n, ev.m), init |-> ev.init, ts |-> ev.ts,
             sw |-> ev.sw, coins |-> ev.coins, pol |-> pol,
             c |-> [x |-> ev.init, at |-> 0], ty |-> "", first |-> <<>>, fty |-> ""]

Temp ==
  /\ Is("Temp") /\ s.ph = "run" /\ Step
  /\ LET new == ev.k = 0
         M == s.M
         t == IF new THEN 0 ELSE s.ts[ev.k]
         cold == Len(s.coins) = 1 /\ t < 0
         r == [t |-> t, coins |-> s.coins, pol |-> s.pol]
         prev == IF new THEN [x |-> s.init, at |-> 0] ELSE s.c
         want == IF new THEN prev ELSE Sweeps(M, r, prev, s.sw)
         fty == IF s.fty = "" THEN ev.ty ELSE s.fty
     IN
     /\ Len(ev.s) = M.n
     /\ (On({"C12"}) /\ (new \/ cold)) =>
          /\ new => ev.s = s.init
          /\ Energy(M, ev.s) <= Energy(M, prev.x)
          /\ (~new /\ s.sw > 0 /\ ev.s = prev.x /\ NoTies(M, ev.s)) => LocalMin(M, ev.s)
          /\ ev.s = want.x
     /\ On({"C13"}) => ev.s = want.x
     /\ (On({"C15"}) /\ ev.ty # fty) => ev.s = s.first[ev.k + 1]
     /\ s' = [s EXCEPT !.c = [x |-> ev.s, at |-> want.at], !.ty = ev.ty, !.fty = fty,
                       !.first = IF ev.ty = fty THEN Append(@, ev.s) ELSE @]

(***************************************************************************)
(* Weights a + b * T, without heat: the model of the a and the model of    *)
(* the b are kept apart, an energy change is the pair of both.             *)
(***************************************************************************)
Digit(m, k) == [j \in 1..Len(m) |-> <<m[j][1], m[j][2], m[j][k]>>]
BDelta(M, x, a) == <<Delta(M[1], x, a), Delta(M[2], x, a)>>
Up(d) == d[2] > 0 \/ (d[2] = 0 /\ d[1] > 0)
Tie(d) == d[1] = 0 /\ d[2] = 0

RECURSIVE BVisit(_, _, _)
BVisit(M, x, a) ==
  IF a > M[1].n THEN x
  ELSE BVisit(M, IF Up(BDelta(M, x, a)) THEN x ELSE Flip(x, a), a + 1)
RECURSIVE BSweeps(_, _, _)
BSweeps(M, x, k) == IF k = 0 THEN x ELSE BSweeps(M, BVisit(M, x, 1), k - 1)

BAnneal ==
  /\ Is("BAnneal") /\ s.ph = "idle" /\ Step
  /\ s' = [ph |-> "brun", M |-> <<Model(ev.n, Digit(ev.m, 3)), Model(ev.n, Digit(ev.m, 4))>>,
           sw |-> ev.sw, x |-> ev.init]

BTemp ==
  /\ Is("BTemp") /\ s.ph = "brun" /\ Step
  /\ Len(ev.s) = s.M[1].n
  /\ On({"C12", "C13", "C15"}) =>
       LET e(x) == <<Energy(s.M[1], x), Energy(s.M[2], x)>>
           d == <<e(ev.s)[1] - e(s.x)[1], e(ev.s)[2] - e(s.x)[2]>>
       IN /\ ~Up(d)
          /\ (ev.s = s.x /\ \A a \in 1..s.M[1].n : ~Tie(BDelta(s.M, ev.s, a)))
               => \A a \in 1..s.M[1].n : Up(BDelta(s.M, ev.s, a))
          /\ ev.s = BSweeps(s.M, s.x, s.sw)
  /\ s' = [s EXCEPT !.x = ev.s]

(***************************************************************************)
(* The sampler as it is used by the solver.                                *)
(***************************************************************************)
Sampler ==
  /\ Is("Sampler") /\ s.ph = "idle" /\ Step
  /\ s' = [ph |-> "sampler", M |-> Model(ev.n, ev.m), what |-> ev.what, sw |-> ev.sw,
           count |-> ev.count, init |-> ev.init, all |-> <<>>]

States(n) == [1..n -> {0, 1}]

Sample ==
  /\ Is("Sample") /\ s.ph = "sampler" /\ Step
  /\ LET M == s.M
         final(k) == Sweeps(M, Cold, [x |-> s.init, at |-> 0], k).x
     IN
     /\ ev.nsol >= 1
     /\ Len(ev.s) = M.n
     \* hottest temperature: whatever a flip costs, it is taken
     /\ (On({"C14"}) /\ s.what = "hot") => ev.s = [a \in 1..M.n |-> 1 - s.init[a]]
     \* coldest temperature, all weights multiples of the smallest: no rise
     /\ (On({"C14"}) /\ s.what = "cold") =>
           \E x \in States(M.n) : ev.s = Sweeps(M, Cold, [x |-> x, at |-> 0], s.sw).x
     \* no heat at all: the number of sweeps shows
     /\ (On({"C12", "C13", "C14"}) /\ s.what = "zero") => ev.s = final(s.sw * s.count)
     \* models without interactions
     /\ (On({"C21", "C14"}) /\ s.what = "opt") =>
           \A a \in 1..M.n : M.h[a] # 0 => ev.s[a] = (IF M.h[a] < 0 THEN 1 ELSE 0)
     /\ (On({"C15"}) /\ s.all # <<>>) => ev.s = s.all[1]
     /\ s' = [s EXCEPT !.all = Append(@, ev.s)]

(***************************************************************************)
(* Temperatures measured by latches: br[k] = <<lo, hi, fallen, ok>>, where *)
(* lo <= prec * beta_k <= hi.                                              *)
(***************************************************************************)
Thermo ==
  /\ Is("Thermo") /\ s.ph = "idle" /\ Step /\ UNCHANGED s
  /\ On({"C14"}) =>
     LET b == ev.br
         n == Len(b)
         holds(k, v) == b[k][1] <= v /\ v <= b[k][2]
     IN
     /\ n = ev.count
     /\ \A k \in 1..n : b[k][3] = n /\ b[k][4] = 1
     /\ IF ev.beta = "range"
        THEN /\ n >= 1 => holds(1, ev.b0)
             /\ n >= 2 => holds(n, ev.b1)
             \* a geometric progression
             /\ \A k \in 2..n - 1 :
                  /\ b[k - 1][1] * b[k + 1][1] <= b[k][2] * b[k][2]
                  /\ b[k][1] * b[k][1] <= b[k - 1][2] * b[k + 1][2]
             /\ \A k \in 2..n :
                  IF ev.b0 <= ev.b1 THEN b[k - 1][1] <= b[k][2] ELSE b[k][1] <= b[k - 1][2]
        ELSE \A k \in 1..n : holds(k, ev.bs[k])

Separable ==
  /\ Is("Separable") /\ s.ph = "idle" /\ Step /\ UNCHANGED s
  /\ On({"C21"}) =>
     /\ \A a \in 1..Len(ev.ws) : ev.ws[a] # 0 => ev.x[a] = (IF ev.ws[a] < 0 THEN 1 ELSE 0)
     /\ \A a \in 1..Len(ev.ws) : ev.x[a] \in {0, 1}
     /\ ev.e = ev.c + SumSeq([a \in 1..Len(ev.ws) |->
                  IF ev.spins[a] = 1 THEN (IF ev.ws[a] < 0 THEN ev.ws[a] ELSE -ev.ws[a])
                  ELSE (IF ev.ws[a] < 0 THEN ev.ws[a] ELSE 0)])

(***************************************************************************)
(* Start states of many runs: nothing is preferred.  Eight standard        *)
(* deviations are allowed (less than 1e-14 to be passed by chance).        *)
(***************************************************************************)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Even(c, N) == LET d == 2 * c - N IN d * d <= 64 * N

Starts ==
  /\ Is("Starts") /\ s.ph = "idle" /\ Step /\ UNCHANGED s
  /\ On({"C26"}) =>
     /\ ev.fits /\ Len(ev.up) = ev.n
     /\ \A a \in 1..ev.n : Even(ev.up[a], ev.runs)
     /\ \A k \in 1..Len(ev.same) : Even(ev.same[k][3], ev.runs)
     /\ ev.n <= 6 => ev.kinds = Pow2(ev.n)
     /\ ev.n >= 64 => ev.kinds = ev.runs

Next == Reset \/ End \/ Anneal \/ Temp \/ BAnneal \/ BTemp \/ Sampler \/ Sample \/ Thermo \/ Starts \/ Separable
Spec == Init /\ [][Next]_vars

Accepted ==
  LET d == TLCGet("stats").diameter
  IN IF d - 1 = Len(Trace) THEN TRUE
     ELSE PrintT(<<"STUCK", d, Len(Trace)>>) /\ FALSE
=============================================================================
