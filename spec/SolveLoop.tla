----------------------------- MODULE SolveLoop -----------------------------
(***************************************************************************)
(* The solve loop over one small program.  In every generation the samples *)
(* answer with some assignments or fail; the environment is free, so TLC   *)
(* explores every history of answers.  The laws below are what a user      *)
(* relies on; every finished history is replayed on the real solver.       *)
(*                                                                         *)
(* The program: V[x] is the objective, Viol[l][x] counts how often label l *)
(* is violated at x, C[l][x] is what one unit of its weight costs.         *)
(***************************************************************************)
EXTENDS Expr, TLC, Json

CONSTANTS IT,       \* iterations
          GEN,      \* generations
          SAMP,     \* samples per generation
          Strength, \* coeff_strength
          Fails,    \* how many generations may fail in a history (0 or 1)
          Which     \* index of the program

(***************************************************************************)
(* Programs (two variables).                                               *)
(***************************************************************************)
x == <<"bin", 0>>
y == <<"bin", 1>>
k(n) == <<"num", n>>
plus(a, b) == <<"add", a, b>>
times(a, b) == <<"mul", a, b>>
sq(a) == <<"mul", <<"mul", k(1), a>>, a>>
con(l, a) == <<"con", l, a>>
B(v) == <<"bin", v>>
O(o) == <<o, 0>>
I(o, n) == <<o, n>>

\* one-hot over two variables
P1 == <<B(0), I("muln", -3), B(1), I("muln", -2), O("add"),
        B(0), B(1), O("add"), I("subn", 1), I("pow", 2), I("con", 0), O("add")>>
\* two labels, one violated nearly everywhere
P2 == <<B(0), I("muln", 4), B(1), O("sub"),
        B(0), I("subn", 1), I("pow", 2), I("con", 0), O("add"),
        B(0), B(1), O("mul"), I("con", 1), O("add")>>
\* the same label twice, never both satisfied
P3 == <<B(0), I("muln", -1),
        B(0), I("con", 0), O("add"), B(0), I("subn", 1), I("pow", 2), I("con", 0), O("add"),
        B(1), I("muln", 2), O("add")>>
\* no constraint
P4 == <<B(0), I("muln", -3), B(1), I("muln", 2), O("add"), B(0), B(1), O("mul"), O("add")>>
\* a constraint inside a penalty, and a negative body
P5 == <<B(0), B(0), B(1), O("sub"), I("pow", 2), I("con", 0), O("pen"),
        B(1), I("subn", 1), I("con", 1), O("add")>>

Prog == CASE Which = 1 -> P1 [] Which = 2 -> P2 [] Which = 3 -> P3 [] Which = 4 -> P4 [] Which = 5 -> P5

RECURSIVE Run(_, _)
Run(prog, st) == IF prog = <<>> THEN st[1] ELSE Run(Tail(prog), Apply(Head(prog), st, 1))
e == Run(Prog, <<>>)
L == Labels(e)
Pts == 1..4
Env(j, w) == [x |-> Asg(<<0, 1>>, j - 1), d |-> <<>>, w |-> w, u |-> 1]
Zero == [l \in L |-> 0]
V == [j \in Pts |-> Value(e, Env(j, Zero))]
C == [l \in L |-> [j \in Pts |-> Value(e, Env(j, [Zero EXCEPT ![l] = 1])) - V[j]]]
OC == Occ(e)
Hits(j) == {o \in 1..Len(OC) : OccViolated(OC[o], Env(j, [l \in L |-> 1]))}
Bad(j) == {OC[o][1] : o \in Hits(j)}

(***************************************************************************)
(* State.                                                                  *)
(***************************************************************************)
VARIABLES g,      \* generations done
          pts, size,
          old,    \* lowest energy of this restart: <<has, numerator, denominator>>
          ret,    \* the pending answer: <<>> or <<point>>
          hist,   \* what was answered: one sequence of points per generation, <<>> if it failed
          out     \* "run", "ok", "err"
vars == <<g, pts, size, old, ret, hist, out>>

Init == /\ g = 0 /\ pts = [l \in L |-> 10] /\ size = 10 * Cardinality(L)
        /\ old = <<FALSE, 0, 1>> /\ ret = <<>> /\ hist = <<>> /\ out = "run"

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0
                 ELSE LET l == CHOOSE l \in S : TRUE IN f[l] + SumOver(S \ {l}, f)

\* Energy x size (the constant left out).
Scaled(p, s, j) == LET D == IF s = 0 THEN 1 ELSE s
                       at(i) == D * V[i] + Strength * SumOver(L, [l \in L |-> p[l] * C[l][i]])
                   IN at(j) - at(1)
D(s) == IF s = 0 THEN 1 ELSE s

Answers == [1..SAMP -> Pts]
Lowest(p, s, a) == CHOOSE i \in 1..SAMP :
                     /\ \A j \in 1..SAMP : Scaled(p, s, a[i]) <= Scaled(p, s, a[j])
                     /\ \A j \in 1..i - 1 : Scaled(p, s, a[i]) < Scaled(p, s, a[j])

Fail ==
  /\ out = "run" /\ g < IT * GEN /\ Fails > 0
  /\ hist' = Append(hist, <<>>) /\ out' = "err"
  /\ UNCHANGED <<g, pts, size, old, ret>>

Sample ==
  /\ out = "run" /\ g < IT * GEN
  /\ \E a \in Answers :
       LET again == g % GEN = 0
           p == IF again THEN [l \in L |-> 10] ELSE pts
           s == IF again THEN 10 * Cardinality(L) ELSE size
           o == IF again THEN <<FALSE, 0, 1>> ELSE old
           j == a[Lowest(p, s, a)]
           E == Scaled(p, s, j)
           better == ~o[1] \/ E * o[3] < o[2] * D(s)
           ok == Bad(j) = {}
       IN
       /\ hist' = Append(hist, a) /\ g' = g + 1
       /\ IF better \/ ok
          THEN /\ ret' = <<j>> /\ old' = <<TRUE, E, D(s)>>
               /\ pts' = [l \in L |-> p[l] + Cardinality({h \in Hits(j) : OC[h][1] = l})]
               /\ size' = s + Cardinality(Hits(j))
               /\ out' = IF ok THEN "ok" ELSE "run"
          ELSE /\ ret' = ret /\ old' = o /\ pts' = p /\ size' = s /\ out' = "run"

End == out = "run" /\ g = IT * GEN /\ out' = "ok" /\ UNCHANGED <<g, pts, size, old, ret, hist>>

Next == Sample \/ Fail \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* Laws.                                                                   *)
(***************************************************************************)
\* Shares: they add up, none is ever lost.
Shares == size = SumOver(L, pts) /\ \A l \in L : pts[l] >= 10

\* A history that saw a solution without violations as its best answer ends
\* with it; otherwise the answer is not worse than necessary.
Given == out = "ok" => ret # <<>>
Early == (out = "ok" /\ ret # <<>> /\ Bad(ret[1]) = {}) => hist[Len(hist)][1] \in Pts /\ g = Len(hist)
Full == (out = "ok" /\ Bad(ret[1]) # {}) => g = IT * GEN
Answered == (out = "ok") => \E i \in 1..Len(hist) : \E n \in 1..Len(hist[i]) : hist[i][n] = ret[1]

\* The weight of a violated constraint never shrinks against the others it
\* is violated together with, and its share grows within a restart.
Grow == [][(g % GEN # 0 /\ pts' # pts) =>
             \A l \in L : l \in Bad(ret'[1]) => pts'[l] > pts[l]]_vars
Keep == [][(g % GEN # 0) => \A l \in L : pts'[l] >= pts[l]]_vars
\* A failure is final and never hides behind an answer.
NoAnswerAfterFailure == out = "err" => hist[Len(hist)] = <<>>
Terminates == <>(out # "run")

Dump == out # "run" => PrintT(<<"BEH", ToJson([prog |-> Prog, it |-> IT, gen |-> GEN, samp |-> SAMP,
                                               strength |-> Strength, hist |-> hist, nl |-> Cardinality(L)])>>)
=============================================================================
