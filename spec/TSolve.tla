------------------------------- MODULE TSolve -------------------------------
(***************************************************************************)
(* Validates recorded solves with a scripted sampler.  Every generation    *)
(* event holds the quadratic model the solver handed out (as a table of    *)
(* energies over the user's variables, constant left out), what the        *)
(* samplers answered and which of them failed.  Numbers of the program are *)
(* multiples of 1/u, energies of 1/(K x u).  The specification is the   *)
(* solve loop: shares of the constraint weights, choice of a best sample,  *)
(* restart, early return, errors.                                          *)
(*                                                                         *)
(* Rounding of floating point numbers is the only tolerance: energies that *)
(* lie within one thousandth of each other may be ordered either way,      *)
(* unless they belong to the same assignment of the same model.            *)
(***************************************************************************)
EXTENDS Expr, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chk == IOEnv.CHECK
On(S) == Chk \in S \/ Chk = "ALL"

VARIABLES i, s
vars == <<i, s>>

None == [has |-> FALSE]

Fresh == [ph |-> "idle", st |-> <<>>, int |-> FALSE, K |-> 1, u |-> 1, streams |-> {}, old |-> {}]
Init == i = 1 /\ s = Fresh

ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Step == i' = i + 1
Range(q) == {q[j] : j \in 1..Len(q)}

Reset == Is("Reset") /\ Step /\ s' = [Fresh EXCEPT !.old = s.streams]
End == Is("End") /\ Step /\ s' = Fresh
Begin == Is("Begin") /\ s.ph = "idle" /\ Step
         /\ s' = [Fresh EXCEPT !.ph = "build", !.int = ev.int, !.K = ev.K, !.u = ev.unit, !.old = s.old]
Op == Is("Op") /\ s.ph = "build" /\ Step
      /\ s' = [s EXCEPT !.st = Apply(ev.op, s.st, s.u)]

(***************************************************************************)
(* The value of the expression is affine in the constraint weights (the    *)
(* scenarios multiply no constraint with another one):                     *)
(*     value(x) = V[x] + SUM_l weight_l * C[l][x]                          *)
(***************************************************************************)
Start ==
  /\ Is("Solve") /\ Step
  /\ \/ s.ph = "build" /\ Len(s.st) = 1
     \/ s.ph = "over"                      \* the solver object is used again
  /\ LET e == IF s.ph = "build" THEN s.st[1] ELSE s.e
         L == Labels(e)
         N == Pow2(Len(ev.keys))
         env(k, w) == [x |-> Asg(ev.keys, k - 1), d |-> <<>>, w |-> w, u |-> s.u]
         zero == [l \in L |-> 0]
         V == [k \in 1..N |-> Value(e, env(k, zero))]
         C == [l \in L |-> [k \in 1..N |-> Value(e, env(k, [zero EXCEPT ![l] = 1])) - V[k]]]
     IN
     /\ Range(ev.keys) = Vars(e)
     /\ s' = [ph |-> "solve", e |-> e, int |-> s.int, K |-> s.K, u |-> s.u, L |-> L, V |-> V, C |-> C,
              keys |-> ev.keys, nanc |-> ev.nanc, it |-> ev.it, gen |-> ev.gen,
              samples |-> ev.samples, strength |-> ev.strength, sunit |-> ev.sunit,
              k |-> 0, pts |-> [l \in L |-> 10], size |-> 10 * Cardinality(L),
              best |-> None, pend |-> None, must |-> FALSE, errs |-> {},
              streams |-> s.streams, old |-> s.old]

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0
                 ELSE LET l == CHOOSE l \in S : TRUE IN f[l] + SumOver(S \ {l}, f)

(***************************************************************************)
(* Weights that the shares allow.                                          *)
(***************************************************************************)
\* Integer coefficients: the exact share rounded down or up, but not zero.
IntWeight(p, size, strength) ==
  LET fl == (p * strength) \div size
      ce == IF fl * size = p * strength THEN fl ELSE fl + 1
      S == {fl, ce}
  IN IF strength > 0 THEN {IF w = 0 THEN 1 ELSE w : w \in S} ELSE S

IntWeights(pts, size) ==
  {w \in [s.L -> UNION {IntWeight(pts[l], size, s.strength) : l \in s.L}] :
     \A l \in s.L : w[l] \in IntWeight(pts[l], size, s.strength)}

WVal(w, k) == s.V[k] + SumOver(s.L, [l \in s.L |-> w[l] * s.C[l][k]])

FitInt(w, tab) == \A k \in 1..Len(tab) : tab[k] = s.K * (WVal(w, k) - WVal(w, 1))

\* Values of real weights, times size x sunit.
Den(size) == (IF size = 0 THEN 1 ELSE size) * s.sunit
RVal(pts, size, k) ==
  s.V[k] * Den(size) + s.strength * SumOver(s.L, [l \in s.L |-> pts[l] * s.C[l][k]])
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
TolD(size) == 20 * Den(size)

FitReal(pts, size, tab) ==
  \A k \in 1..Len(tab) :
    Near(tab[k] * Den(size), s.K * (RVal(pts, size, k) - RVal(pts, size, 1)), TolD(size))

FitModel(pts, size, tab) ==
  IF s.int THEN \E w \in IntWeights(pts, size) : FitInt(w, tab)
  ELSE FitReal(pts, size, tab)

(***************************************************************************)
(* One generation.                                                         *)
(***************************************************************************)
MinE(q) == CHOOSE m \in {q[j][2] : j \in 1..Len(q)} : \A j \in 1..Len(q) : m <= q[j][2]
Env(x) == [x |-> AsgOf(s.keys, x), d |-> <<>>, w |-> [l \in s.L |-> 1], u |-> s.u]
Feasible(x) == ViolatedAt(s.e, Env(x)) = {}

RECURSIVE Num(_)
Num(x) == IF x = <<>> THEN 0 ELSE x[1] + 2 * Num(Tail(x))

\* Is (x, E, tab) strictly better than what the restart has seen?
Better(best, c, tab) ==
  IF ~best.has THEN {TRUE}
  ELSE IF s.int THEN {c[2] < best.E}
  ELSE IF c[1] = best.x /\ tab = best.tab /\ c[2] = best.E THEN {FALSE}
  ELSE IF Near(c[2], best.E, 1) THEN {TRUE, FALSE}
  ELSE {c[2] < best.E}

Own(r) ==
  /\ Cardinality(Range(r)) = Len(r)
  /\ \A j \in 1..Len(r) :
    /\ r[j][1] # r[j][2]
    /\ r[j] \notin s.streams /\ r[j] \notin s.old
\* With only that in view, which answer is taken does not matter.
GenStreams ==
  /\ Chk = "C25" /\ Is("Gen") /\ s.ph = "solve" /\ Step
  /\ Own(ev.rngs)
  /\ s' = [s EXCEPT !.streams = @ \cup Range(ev.rngs), !.pend = [has |-> TRUE],
                    !.ph = IF ev.errs = <<>> THEN @ ELSE "failed"]

Gen ==
  /\ Chk # "C25" /\ Is("Gen") /\ s.ph = "solve" /\ ~s.must /\ Step
  /\ On({"C09"}) => s.k < s.it * s.gen
  /\ ev.ok
  /\ LET again == s.k % s.gen = 0
         pts == IF again THEN [l \in s.L |-> 10] ELSE s.pts
         size == IF again THEN 10 * Cardinality(s.L) ELSE s.size
         best == IF again THEN None ELSE s.best
     IN
     /\ On({"C08"}) => FitModel(pts, size, ev.tab)
     /\ IF ev.errs # <<>>
        THEN s' = [s EXCEPT !.ph = "failed", !.errs = Range(ev.errs)]
        ELSE
          /\ On({"C09", "C11"}) => ev.calls = s.samples
          /\ \E c \in {d \in Range(ev.sols) :
                         d[2] <= MinE(ev.sols) + (IF s.int THEN 0 ELSE 1)} :
               LET p == [has |-> TRUE, x |-> c[1], E |-> c[2], tab |-> ev.tab,
                         pts |-> pts, size |-> size, occ |-> c[4]]
                   hits == ViolatedAt(s.e, Env(c[1]))
                   occ == Occ(s.e)
               IN
               IF Feasible(c[1])
               THEN s' = [s EXCEPT !.k = @ + 1, !.pend = p, !.must = TRUE]
               ELSE \E b \in Better(best, c, ev.tab) :
                 s' = IF b
                      THEN [s EXCEPT !.k = @ + 1, !.pend = p, !.best = [p EXCEPT !.occ = 0],
                              !.pts = [l \in s.L |-> pts[l]
                                         + Cardinality({o \in hits : occ[o][1] = l})],
                              !.size = size + Cardinality(hits)]
                      ELSE [s EXCEPT !.k = @ + 1, !.pts = pts, !.size = size, !.best = best]

(***************************************************************************)
(* The result.                                                             *)
(***************************************************************************)
\* Energy of the pending result at table position k, and the constant.
FitE(k, e, exactly) ==
  LET p == s.pend IN
  IF s.int
  THEN \E w \in IntWeights(p.pts, p.size) :
         /\ FitInt(w, p.tab)
         /\ IF exactly THEN e = s.K * WVal(w, k) ELSE e >= s.K * WVal(w, k)
  ELSE LET a == e * Den(p.size)
           b == s.K * RVal(p.pts, p.size, k)
       IN IF exactly THEN Near(a, b, TolD(p.size)) ELSE a - b >= -TolD(p.size)

FitC(c) ==
  LET p == s.pend IN
  IF s.int
  THEN \E w \in IntWeights(p.pts, p.size) : FitInt(w, p.tab) /\ c = s.K * WVal(w, 1)
  ELSE Near(c * Den(p.size), s.K * RVal(p.pts, p.size, 1), TolD(p.size))

Done ==
  /\ Is("Done") /\ s.ph = "solve" /\ Step
  /\ On({"C09", "C11"}) => s.must \/ s.k = s.it * s.gen
  /\ s.pend.has
  /\ LET p == s.pend
         k == Num(ev.x) + 1
         tol == IF s.int THEN 0 ELSE 20
     IN
     /\ On({"C09", "C11"}) => ev.x = p.x /\ ev.occ = p.occ
     /\ On({"C03"}) => ev.keys = s.keys /\ ev.ok
     /\ On({"C06", "C11"}) => Range(ev.labels) = Violated(s.e, Env(ev.x))
     /\ On({"C10"}) =>
          /\ ev.ok
          /\ FitE(k, ev.e, s.nanc = 0)
          /\ FitC(ev.e - ev.sole)
          /\ (s.nanc = 0) => \A v \in 1..Len(s.keys) :
                Near(ev.lf[v],
                     p.tab[k + (IF ev.x[v] = 1 THEN -1 ELSE 1) * Pow2(v - 1)] - p.tab[k], tol)
     /\ On({"C11", "C09"}) => Near(ev.sole, p.E, tol)
  /\ s' = [s EXCEPT !.ph = "over"]

Err ==
  /\ Is("Err") /\ s.ph = "failed" /\ Step
  /\ On({"C11"}) => ev.code \in s.errs
  /\ s' = [s EXCEPT !.ph = "over"]

Next == Reset \/ End \/ Begin \/ Op \/ Start \/ Gen \/ GenStreams \/ Done \/ Err
Spec == Init /\ [][Next]_vars

Accepted ==
  LET d == TLCGet("stats").diameter
  IN IF d - 1 = Len(Trace) THEN TRUE
     ELSE PrintT(<<"STUCK", d, Len(Trace)>>) /\ FALSE
=============================================================================
