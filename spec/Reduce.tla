------------------------------- MODULE Reduce -------------------------------
(***************************************************************************)
(* Reduction of the order.  The state is a polynomial over user variables  *)
(* 1..n and ancillas n+1..n+na; every step replaces a set of variables in  *)
(* all monomials above quadratic that contain it.  Which set is replaced   *)
(* is left open between the sets the rule calls equally good, so TLC       *)
(* explores every order of iteration a hash map may have.                  *)
(*                                                                         *)
(* A monomial is a set of variables; its coefficient is a record           *)
(* [c |-> number, s |-> -1/0/1]: s is the sign the compiler can prove      *)
(* (0: it contains placeholders and cannot tell).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NV, Coefs, MinDeg, MaxMonos, Unknown

VARIABLES p,      \* the polynomial
          na,     \* number of ancillas
          orig    \* what the user wrote
vars == <<p, na, orig>>

C1 == {-1, 1}
C2 == {-2, -1, 1, 2}
C3 == {-3, 1, 2}

Abs(k) == IF k < 0 THEN -k ELSE k
MaxSet(S) == CHOOSE m \in S : \A k \in S : k <= m

Users == 1..NV
Monos == {S \in SUBSET Users : Cardinality(S) >= MinDeg}

Init ==
  /\ \E D \in {E \in SUBSET Monos : E # {} /\ Cardinality(E) <= MaxMonos} :
       \E f \in [D -> Coefs] : \E k \in [D -> IF Unknown THEN {TRUE, FALSE} ELSE {TRUE}] :
         p = [S \in D |-> [c |-> f[S], s |-> IF ~k[S] THEN 0 ELSE IF f[S] > 0 THEN 1 ELSE -1]]
  /\ na = 0
  /\ orig = p

Order(q) == IF q = <<>> \/ DOMAIN q = {} THEN 0 ELSE MaxSet({Cardinality(S) : S \in DOMAIN q})

\* Sum of coefficients; its sign is known if the signs agree.
Plus(a, b) == [c |-> a.c + b.c, s |-> IF a.s = b.s THEN a.s ELSE 0]
Times(a, k) == [c |-> a.c * k, s |-> IF k > 0 THEN a.s ELSE -a.s]
AddTo(q, S, a) == [T \in DOMAIN q \cup {S} |->
                    IF T \notin DOMAIN q THEN a ELSE IF T = S THEN Plus(q[T], a) ELSE q[T]]
RECURSIVE AddAll(_, _)
AddAll(q, L) == IF L = {} THEN q
                ELSE LET t == CHOOSE t \in L : TRUE IN AddAll(AddTo(q, t[1], t[2]), L \ {t})

(***************************************************************************)
(* Candidates: <<set, sign>>; pairs are replaced whatever the sign.        *)
(***************************************************************************)
High == {S \in DOMAIN p : Cardinality(S) > 2}
Subs(T) == {S \in SUBSET T : Cardinality(S) >= 2}
Cands == UNION {{<<S, IF Cardinality(S) > 2 THEN p[T].s ELSE 0>> :
                   S \in {R \in Subs(T) : Cardinality(R) = 2 \/ p[T].s # 0}} : T \in High}
Count(c) == Cardinality({T \in High : c[1] \subseteq T
                          /\ (Cardinality(c[1]) = 2 \/ p[T].s = c[2])})
Best ==
  LET m == MaxSet({Count(c) : c \in Cands})
      A == {c \in Cands : Count(c) = m}
      k == MaxSet({Cardinality(c[1]) : c \in A})
  IN {c \in A : Cardinality(c[1]) = k}

(***************************************************************************)
(* The replacement of x_1 ... x_d as a set of <<monomial, factor>>.        *)
(***************************************************************************)
PairsOf(S) == {T \in SUBSET S : Cardinality(T) = 2}

Positive(S, a0) ==
  LET d == Cardinality(S)
      n == (d - 1) \div 2
      last == d % 2 = 1            \* the last ancilla of an odd degree differs
      w(i) == a0 + i
  IN {<<T, 1>> : T \in PairsOf(S)} \cup
     UNION {{<<{w(i), x}, IF last /\ i = n THEN -1 ELSE -2>> : x \in S}
            \cup {<<{w(i)}, IF last /\ i = n THEN 2 * n - 1 ELSE 4 * i - 1>>} : i \in 1..n}
Negative(S, a0) == {<<{a0 + 1, x}, 1>> : x \in S} \cup {<<{a0 + 1}, 1 - Cardinality(S)>>}
Penalty(S, a0) == {<<{a0 + 1}, 3>>, <<S, 1>>} \cup {<<{a0 + 1, x}, -2>> : x \in S}

\* Multiply one monomial by a replacement.
Spread(T, S, a, F) == {<<(T \ S) \cup f[1], Times(a, f[2])>> : f \in F}

RECURSIVE SumAbs(_)
SumAbs(D) == IF D = {} THEN 0 ELSE LET T == CHOOSE T \in D : TRUE IN Abs(p[T].c) + SumAbs(D \ {T})

RECURSIVE ReplaceIn(_, _, _, _)
ReplaceIn(q, D, S, F) ==
  IF D = {} THEN q
  ELSE LET T == CHOOSE T \in D : TRUE
       IN ReplaceIn(AddAll(q, Spread(T, S, p[T], F)), D \ {T}, S, F)

Replace(c) ==
  LET S == c[1]
      D == {T \in DOMAIN p : S \subseteq T}
      rest == [T \in DOMAIN p \ D |-> p[T]]
      a0 == NV + na
  IN IF c[2] # 0
     THEN /\ p' = ReplaceIn(rest, D, S, IF c[2] > 0 THEN Positive(S, a0) ELSE Negative(S, a0))
          /\ na' = na + (IF c[2] > 0 THEN (Cardinality(S) - 1) \div 2 ELSE 1)
     ELSE LET r == ReplaceIn(rest, D, S, {<<{a0 + 1}, 1>>})
              m == SumAbs(D)
          IN /\ p' = AddAll(r, {<<f[1], [c |-> m * f[2], s |-> IF f[2] > 0 THEN 1 ELSE -1]>> :
                                 f \in Penalty(S, a0)})
             /\ na' = na + 1

Step == Order(p) > 2 /\ \E c \in Best : Replace(c) /\ UNCHANGED orig
Done == Order(p) <= 2 /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

(***************************************************************************)
(* Laws.                                                                   *)
(***************************************************************************)
RECURSIVE EvalOn(_, _, _)
EvalOn(D, q, on) ==        \* on: the variables that are 1
  IF D = {} THEN 0
  ELSE LET T == CHOOSE T \in D : TRUE
       IN (IF T \subseteq on THEN q[T].c ELSE 0) + EvalOn(D \ {T}, q, on)
Eval(q, on) == EvalOn(DOMAIN q, q, on)

Ancs == (NV + 1)..(NV + na)
MinOver(on) == LET V == {Eval(p, on \cup A) : A \in SUBSET Ancs}
               IN CHOOSE m \in V : \A k \in V : m <= k

\* The optimum over the ancillas is the value of the original everywhere, in
\* the middle of the reduction too.
MinLaw == \A on \in SUBSET Users : MinOver(on) = Eval(orig, on)

\* A set replaced by the formula of one sign is in no monomial of another sign.
SignLaw == Order(p) > 2 =>
  \A c \in Best : c[2] # 0 => \A T \in DOMAIN p : c[1] \subseteq T => p[T].s = c[2]

KnownLaw == \A T \in DOMAIN p : p[T].s # 0 => p[T].c * p[T].s >= 0
NoLoss == UNION DOMAIN orig \subseteq UNION DOMAIN p

Ends == <>(Order(p) <= 2)

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A k \in S : m <= k
                                     IN <<m - 1>> \o SeqOf(S \ {m})
RECURSIVE Listing(_)
Listing(D) == IF D = {} THEN <<>>
              ELSE LET T == CHOOSE T \in D : TRUE
                   IN <<<<SeqOf(T), orig[T].c, orig[T].s # 0>>>> \o Listing(D \ {T})
Dump == (p = orig /\ na = 0) => PrintT(<<"BEH", ToJson(Listing(DOMAIN orig))>>)
=============================================================================
