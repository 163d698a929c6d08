-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Expressions of rustqubo and what they mean.                             *)
(*                                                                         *)
(* An expression is a tree of tuples:                                      *)
(*   <<"bin", v>>  <<"spin", v>>  <<"num", k>>  <<"ph", p>>                *)
(*   <<"add", a, b>>  <<"mul", a, b>>  <<"con", l, a>>  <<"pen", a, p>>    *)
(*                                                                         *)
(* Numbers are whole multiples of 1/u.  An environment is a record         *)
(*   [x |-> variable -> 0/1, d |-> placeholder -> number,                  *)
(*    w |-> constraint label -> whole weight, u |-> unit]                  *)
(*                                                                         *)
(* <<"big", a, b>> is the number a + b * T for a huge T.  Expressions in   *)
(* which no two of them are multiplied are affine in T, so that their      *)
(* values for T = 0 and T = 1 tell the value for every T.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(n) == IF n < 0 THEN -n ELSE n

Leaf(e) == e[1] \in {"bin", "spin", "num", "ph"}
Node2(e) == e[1] \in {"add", "mul", "pen"}

RECURSIVE Vars(_)
Vars(e) ==
  CASE e[1] \in {"bin", "spin"} -> {e[2]}
    [] e[1] = "con" -> Vars(e[3])
    [] Node2(e) -> Vars(e[2]) \cup Vars(e[3])
    [] OTHER -> {}

RECURSIVE Phs(_)
Phs(e) ==
  CASE e[1] = "ph" -> {e[2]}
    [] e[1] = "con" -> Phs(e[3])
    [] Node2(e) -> Phs(e[2]) \cup Phs(e[3])
    [] OTHER -> {}

RECURSIVE Labels(_)
Labels(e) ==
  CASE e[1] = "con" -> {e[2]} \cup Labels(e[3])
    [] Node2(e) -> Labels(e[2]) \cup Labels(e[3])
    [] OTHER -> {}

RECURSIVE HasPen(_)
HasPen(e) ==
  CASE e[1] = "pen" -> TRUE
    [] e[1] = "con" -> HasPen(e[3])
    [] Node2(e) -> HasPen(e[2]) \/ HasPen(e[3])
    [] OTHER -> FALSE

RECURSIVE Size(_)
Size(e) ==
  CASE e[1] = "con" -> 1 + Size(e[3])
    [] Node2(e) -> 1 + Size(e[2]) + Size(e[3])
    [] OTHER -> 1

MaxOf(a, b) == IF a > b THEN a ELSE b

\* An upper bound of the degree of the polynomial (penalties included).
RECURSIVE MainDeg(_)
MainDeg(e) ==
  CASE e[1] \in {"bin", "spin"} -> 1
    [] e[1] = "con" -> MainDeg(e[3])
    [] e[1] = "pen" -> MainDeg(e[2])
    [] e[1] = "add" -> MaxOf(MainDeg(e[2]), MainDeg(e[3]))
    [] e[1] = "mul" -> MainDeg(e[2]) + MainDeg(e[3])
    [] OTHER -> 0

(***************************************************************************)
(* The value of an expression, penalties left aside: a constraint counts   *)
(* with its weight, a spin is +1 or -1.                                    *)
(***************************************************************************)
RECURSIVE Main(_, _)
Main(e, env) ==
  CASE e[1] = "num" -> e[2]
    [] e[1] = "big" -> e[2] + e[3] * env.T
    [] e[1] = "ph" -> env.d[e[2]]
    [] e[1] = "bin" -> env.u * env.x[e[2]]
    [] e[1] = "spin" -> env.u * (2 * env.x[e[2]] - 1)
    [] e[1] = "add" -> Main(e[2], env) + Main(e[3], env)
    [] e[1] = "mul" -> (Main(e[2], env) * Main(e[3], env)) \div env.u
    [] e[1] = "con" -> env.w[e[2]] * Main(e[3], env)
    [] e[1] = "pen" -> Main(e[2], env)

(***************************************************************************)
(* All penalties of an expression: each is charged once per occurrence of  *)
(* the guarded expression, whatever multiplies it, together with its own   *)
(* penalties.                                                              *)
(***************************************************************************)
RECURSIVE Pens(_, _)
Pens(e, env) ==
  CASE e[1] \in {"add", "mul"} -> Pens(e[2], env) + Pens(e[3], env)
    [] e[1] = "con" -> Pens(e[3], env)
    [] e[1] = "pen" -> Pens(e[2], env) + Pens(e[3], env) + Main(e[3], env)
    [] OTHER -> 0

Value(e, env) == Main(e, env) + Pens(e, env)

(***************************************************************************)
(* Constraints of an expression, one entry per occurrence.                 *)
(***************************************************************************)
RECURSIVE Occ(_)
Occ(e) ==
  CASE Node2(e) -> Occ(e[2]) \o Occ(e[3])
    [] e[1] = "con" -> Occ(e[3]) \o <<<<e[2], e[3]>>>>
    [] OTHER -> <<>>

\* Absolute value at least 1e-4 (a whole number n stands for n/u).
Nonzero(n, u) == IF Abs(n) > u THEN TRUE ELSE Abs(n) * 10000 >= u

OccViolated(o, env) == Nonzero(Main(o[2], env), env.u)

ViolatedAt(e, env) ==
  LET o == Occ(e) IN {i \in 1..Len(o) : OccViolated(o[i], env)}

Violated(e, env) ==
  LET o == Occ(e) IN {o[i][1] : i \in {j \in 1..Len(o) : OccViolated(o[j], env)}}

(***************************************************************************)
(* Feeding and mapping.                                                    *)
(***************************************************************************)
RECURSIVE Feed(_, _)
Feed(e, d) ==
  CASE e[1] = "ph" -> IF e[2] \in DOMAIN d THEN <<"num", d[e[2]]>> ELSE e
    [] e[1] = "con" -> <<"con", e[2], Feed(e[3], d)>>
    [] Node2(e) -> <<e[1], Feed(e[2], d), Feed(e[3], d)>>
    [] OTHER -> e

RECURSIVE StripPen(_)
StripPen(e) == IF e[1] = "pen" THEN StripPen(e[2]) ELSE e

\* The functions that are mapped, by name.
F(f, e) ==
  CASE f[1] = "mapid" -> e
    [] f[1] = "mapnum" ->
         IF e[1] \in {"bin", "spin"} /\ e[2] = f[2] THEN <<"num", f[3]>> ELSE e
    [] f[1] = "mapren" ->
         IF e[1] \in {"bin", "spin"} /\ e[2] = f[2] THEN <<e[1], f[3]>> ELSE e
    [] f[1] = "mapswap" ->
         IF e[1] = "bin" THEN <<"spin", e[2]>>
         ELSE IF e[1] = "spin" THEN <<"bin", e[2]>> ELSE e
    [] f[1] = "mapadd" -> IF e[1] = "num" THEN <<"num", e[2] + f[2]>> ELSE e
    [] f[1] = "maplab" -> IF e[1] = "con" THEN <<"con", e[2] + f[2], e[3]>> ELSE e
    [] f[1] = "mapstrip" -> IF e[1] = "pen" THEN e[2] ELSE e
    [] f[1] = "mapstripall" -> StripPen(e)
    [] f[1] = "mapflip" -> IF e[1] \in {"add", "mul"} THEN <<e[1], e[3], e[2]>> ELSE e
    [] f[1] = "mapgrow" ->
         IF e[1] = "spin" THEN <<"add", <<"bin", e[2]>>, <<"bin", e[2]>>>> ELSE e
    [] f[1] = "mapph" -> IF e[1] = "ph" /\ e[2] = f[2] THEN <<"num", f[3]>> ELSE e

\* Root first, then the children of what the function made of the root.
RECURSIVE Map(_, _)
Map(f, e) ==
  LET r == F(f, e) IN
  CASE r[1] = "con" -> <<"con", r[2], Map(f, r[3])>>
    [] Node2(r) -> <<r[1], Map(f, r[2]), Map(f, r[3])>>
    [] OTHER -> r

\* The nodes the function is applied to.
RECURSIVE Seen(_, _)
Seen(f, e) ==
  LET r == F(f, e) IN
  CASE r[1] = "con" -> <<e>> \o Seen(f, r[3])
    [] Node2(r) -> <<e>> \o Seen(f, r[2]) \o Seen(f, r[3])
    [] OTHER -> <<e>>

(***************************************************************************)
(* The public constructors and operators as a stack machine.               *)
(***************************************************************************)
RECURSIVE Pow(_, _, _)
Pow(e, n, u) == IF n = 0 THEN <<"num", u>> ELSE <<"mul", Pow(e, n - 1, u), e>>

DictOf(pairs) == [p \in {pairs[i][1] : i \in 1..Len(pairs)} |->
                   pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = p][2]]

Apply(op, st, u) ==
  LET n == Len(st)
      a == st[n]
      b == st[n - 1]
      one(r) == SubSeq(st, 1, n - 1) \o <<r>>
      two(r) == SubSeq(st, 1, n - 2) \o <<r>>
      k == op[2]
      minus(e) == <<"mul", <<"num", -u>>, e>>
  IN
  CASE op[1] = "bin" -> Append(st, <<"bin", k>>)
    [] op[1] = "spin" -> Append(st, <<"spin", k>>)
    [] op[1] \in {"num", "from"} -> Append(st, <<"num", k>>)
    [] op[1] = "ph" -> Append(st, <<"ph", k>>)
    [] op[1] = "big" -> Append(st, <<"big", k, op[3]>>)
    [] op[1] = "zero" -> Append(st, <<"num", 0>>)
    [] op[1] = "one" -> Append(st, <<"num", u>>)
    [] op[1] = "dup" -> Append(st, a)
    [] op[1] \in {"add", "adda", "radd"} -> two(<<"add", b, a>>)
    [] op[1] \in {"mul", "mula", "rmul"} -> two(<<"mul", b, a>>)
    [] op[1] \in {"sub", "suba"} -> two(<<"add", b, minus(a)>>)
    [] op[1] = "neg" -> one(minus(a))
    [] op[1] \in {"pow", "powa"} -> one(Pow(a, k, u))
    [] op[1] = "con" -> one(<<"con", k, a>>)
    [] op[1] = "pen" -> two(<<"pen", b, a>>)
    [] op[1] = "feed" -> one(Feed(a, DictOf(k)))
    [] op[1] \in {"addn", "nadd", "addan"} -> one(<<"add", a, <<"num", k>>>>)
    [] op[1] \in {"subn", "suban"} -> one(<<"add", a, <<"num", -k>>>>)
    [] op[1] = "nsub" -> one(<<"add", <<"num", k>>, minus(a)>>)
    [] op[1] \in {"muln", "nmul", "mulan"} -> one(<<"mul", a, <<"num", k>>>>)
    [] OTHER -> one(Map(op, a))

\* Assignment number k (0-based) of the sequence of variables vs.
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Asg(vs, k) == [v \in {vs[i] : i \in 1..Len(vs)} |->
                (k \div Pow2((CHOOSE i \in 1..Len(vs) : vs[i] = v) - 1)) % 2]
AsgOf(vs, bits) == [v \in {vs[i] : i \in 1..Len(vs)} |->
                     bits[CHOOSE i \in 1..Len(vs) : vs[i] = v]]
=============================================================================
