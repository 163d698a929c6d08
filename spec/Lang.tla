-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* The language as a state machine: a user writes a program operation by   *)
(* operation, gives values to some placeholders early and to others late   *)
(* (or never), and compiles.  TLC walks through every program of at most   *)
(* N operations over an alphabet, checks the laws below in every state and *)
(* prints every behaviour; the harness replays each of them on the real    *)
(* library and TSession decides whether it agrees.                         *)
(*                                                                         *)
(* The compiler is specified as expansion to a polynomial: a function from *)
(* monomials <<set of variables, bag of placeholders and labels>> to       *)
(* coefficients.  Laws: the polynomial has the value of the expression,    *)
(* feeding commutes with the value and with expansion, violated            *)
(* constraints do not depend on weights, mapping commutes with the value.  *)
(***************************************************************************)
EXTENDS Expr, TLC, Json

CONSTANTS N,          \* length of the programs
          Alphabet,   \* operations
          Prefix,     \* operations that every program begins with
          Feeding,    \* "none": no placeholders; "all": every way to feed
          Late        \* values of placeholders

VARIABLES prog, st, ph, pre, cf
vars == <<prog, st, ph, pre, cf>>

u == 1
LateV == <<2, 3>>

(***************************************************************************)
(* Alphabets.                                                              *)
(***************************************************************************)
B(v) == <<"bin", v>>
S(v) == <<"spin", v>>
O(o) == <<o, 0>>
I(o, k) == <<o, k>>

AlphaPoly == {B(0), B(1), S(0), I("num", -2), O("add"), O("mul"), O("sub"),
              O("neg"), I("pow", 2), I("pow", 0), I("con", 0)}
AlphaOps == {B(0), S(1), I("num", 3), O("adda"), O("mula"), O("suba"), O("radd"), O("rmul"),
             I("addn", 2), I("nadd", -1), I("subn", 2), I("nsub", 1), I("muln", -2), I("nmul", 3),
             I("addan", 1), I("suban", 3), I("mulan", 2), I("powa", 2), I("from", 2), O("one"), O("zero")}
AlphaCubic == {B(0), B(1), B(2), S(2), O("mul"), O("add"), O("neg"), I("pow", 3)}
AlphaPh == {B(0), S(1), I("ph", 0), I("ph", 1), O("add"), O("mul"), O("sub"),
            I("con", 0), O("pen"), I("pow", 2)}
\* Programs that go on from x0 x1 x2 (the prefix is on the stack).
AlphaPhHi == {I("ph", 0), I("ph", 1), I("num", -2), O("add"), O("mul"), O("sub"), O("neg"), I("muln", -1)}
AlphaPen == {B(0), S(1), I("num", -2), O("add"), O("mul"), O("pen"), O("neg"),
             I("con", 0), I("pow", 2), O("dup")}
AlphaCon == {B(0), S(1), I("num", 1), O("add"), O("mul"), O("sub"), I("con", 0), I("con", 1),
             I("muln", 0)}
AlphaMap == {B(0), S(1), I("num", 2), O("add"), O("mul"), O("pen"), I("con", 0),
             <<"mapid", 0>>, <<"mapnum", 0, 2>>, <<"mapren", 0, 1>>, <<"mapswap", 0>>,
             <<"mapstripall", 0>>, <<"maplab", 1>>}

(***************************************************************************)
(* Programs.                                                               *)
(***************************************************************************)
Arity(op) ==
  CASE op[1] \in {"bin", "spin", "num", "from", "ph", "zero", "one"} -> 0
    [] op[1] \in {"add", "adda", "radd", "mul", "mula", "rmul", "sub", "suba", "pen"} -> 2
    [] OTHER -> 1
Growth(op) == IF op[1] = "dup" THEN 1 ELSE 1 - Arity(op)

\* What the library refuses to compile (out of the domain of the properties).
RECURSIVE Sane(_)
Sane(e) ==
  CASE e[1] = "con" -> Sane(e[3]) /\ Labels(e[3]) = {} /\ ~HasPen(e[3])
    [] Node2(e) -> Sane(e[2]) /\ Sane(e[3])
    [] OTHER -> TRUE

RECURSIVE Run(_, _)
Run(q, s) == IF q = <<>> THEN s ELSE Run(Tail(q), Apply(Head(q), s, u))
NoPrefix == <<>>
Cubic == <<B(0), B(1), O("mul"), B(2), O("mul")>>
Quadratic == <<B(0), S(1), O("add"), I("pow", 2), I("con", 0)>>

Init == prog = <<>> /\ st = Run(Prefix, <<>>) /\ ph = "build" /\ pre = <<>> /\ cf = <<>>

Write ==
  /\ ph = "build" /\ Len(prog) < N
  /\ \E op \in Alphabet :
       /\ Len(st) >= Arity(op)
       /\ LET r == Apply(op, st, u) IN
          /\ Len(r) - 1 <= N - Len(prog) - 1
          /\ Sane(r[Len(r)])
          /\ prog' = Append(prog, op) /\ st' = r
  /\ UNCHANGED <<ph, pre, cf>>

Whole == ph = "build" /\ Len(st) = 1 /\ prog # <<>>

\* Every placeholder is fed early, late or never; a stranger may be fed too.
Place ==
  /\ Whole
  /\ IF Feeding = "none"
     THEN pre' = <<>> /\ cf' = <<>> /\ ph' = "compiled"
     ELSE LET P == Phs(st[1]) IN
          \E when \in [P -> {"early", "late", "never"}] :
            /\ pre' = [p \in {q \in P : when[q] = "early"} |-> Late[p + 1]]
            /\ \E more \in BOOLEAN :
                 cf' = [p \in {q \in P : when[q] = "late"} \cup (IF more THEN {9} ELSE {}) |->
                          IF p = 9 THEN 5 ELSE Late[p + 1]]
            /\ ph' = "compiled"
  /\ st' = <<Feed(st[1], pre')>>
  /\ UNCHANGED prog

Next == Write \/ Place
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Expansion.                                                              *)
(***************************************************************************)
Bag0 == [a \in {} |-> 0]
BPlus(a, b) == [k \in (DOMAIN a) \cup (DOMAIN b) |->
                 (IF k \in DOMAIN a THEN a[k] ELSE 0) + (IF k \in DOMAIN b THEN b[k] ELSE 0)]
Mono(S_, b, c) == [k \in {<<S_, b>>} |-> c]
At(p, k) == IF k \in DOMAIN p THEN p[k] ELSE 0
PAdd(p, q) == [k \in (DOMAIN p) \cup (DOMAIN q) |-> At(p, k) + At(q, k)]
RECURSIVE SumP(_, _, _)
SumP(R, p, q) == IF R = {} THEN 0
                 ELSE LET r == CHOOSE r \in R : TRUE IN p[r[1]] * q[r[2]] + SumP(R \ {r}, p, q)
Join(k1, k2) == <<k1[1] \cup k2[1], BPlus(k1[2], k2[2])>>
PMul(p, q) ==
  LET R == (DOMAIN p) \X (DOMAIN q)
  IN [k \in {Join(r[1], r[2]) : r \in R} |-> SumP({r \in R : Join(r[1], r[2]) = k}, p, q)]

RECURSIVE PMain(_)
PMain(e) ==
  CASE e[1] = "num" -> Mono({}, Bag0, e[2])
    [] e[1] = "ph" -> Mono({}, [k \in {<<"ph", e[2]>>} |-> 1], 1)
    [] e[1] = "bin" -> Mono({e[2]}, Bag0, 1)
    [] e[1] = "spin" -> PAdd(Mono({e[2]}, Bag0, 2), Mono({}, Bag0, -1))
    [] e[1] = "add" -> PAdd(PMain(e[2]), PMain(e[3]))
    [] e[1] = "mul" -> PMul(PMain(e[2]), PMain(e[3]))
    [] e[1] = "con" -> PMul(Mono({}, [k \in {<<"con", e[2]>>} |-> 1], 1), PMain(e[3]))
    [] e[1] = "pen" -> PMain(e[2])
RECURSIVE PPens(_)
PPens(e) ==
  CASE e[1] \in {"add", "mul"} -> PAdd(PPens(e[2]), PPens(e[3]))
    [] e[1] = "con" -> PPens(e[3])
    [] e[1] = "pen" -> PAdd(PAdd(PPens(e[2]), PPens(e[3])), PMain(e[3]))
    [] OTHER -> Mono({}, Bag0, 0)
Poly(e) == PAdd(PMain(e), PPens(e))

RECURSIVE Power(_, _)
Power(a, n) == IF n = 0 THEN 1 ELSE a * Power(a, n - 1)
RECURSIVE BagVal(_, _, _)
BagVal(D, b, env) ==
  IF D = {} THEN 1
  ELSE LET k == CHOOSE k \in D : TRUE
       IN Power(IF k[1] = "ph" THEN env.d[k[2]] ELSE env.w[k[2]], b[k]) * BagVal(D \ {k}, b, env)
RECURSIVE PSum(_, _, _)
PSum(D, p, env) ==
  IF D = {} THEN 0
  ELSE LET k == CHOOSE k \in D : TRUE
       IN (IF \A v \in k[1] : env.x[v] = 1 THEN p[k] * BagVal(DOMAIN k[2], k[2], env) ELSE 0)
          + PSum(D \ {k}, p, env)
PVal(p, env) == PSum(DOMAIN p, p, env)

(***************************************************************************)
(* Laws.                                                                   *)
(***************************************************************************)
Top == st[1]
Envs(e) == [x : [Vars(e) -> {0, 1}], d : [Phs(e) -> {0, 2}], w : [Labels(e) -> {1, 3}], u : {u}]

Compiled == ph = "compiled"

\* Expansion has the value of the expression.
ExpandLaw == Compiled => LET p == Poly(Top) IN \A env \in Envs(Top) : PVal(p, env) = Value(Top, env)
DegreeLaw == Compiled => \A k \in DOMAIN PMain(Top) : Cardinality(k[1]) <= MainDeg(Top)

\* Violated constraints do not depend on weights; feeding early or late is
\* the same as having the values all along.
FedEnv(e, env) == [env EXCEPT !.d = [p \in Phs(e) |-> IF p \in DOMAIN pre THEN pre[p] ELSE env.d[p]]]
LabelLaw == Compiled => \A env \in Envs(Top) :
              Violated(Top, env) = Violated(Top, [env EXCEPT !.w = [l \in Labels(Top) |-> 7]])
FeedLaw ==
  Compiled =>
    LET e == Top
        late == [p \in (DOMAIN cf) \cap Phs(e) |-> cf[p]]
        f == Feed(e, late)
    IN /\ Phs(f) = Phs(e) \ DOMAIN cf
       /\ \A env \in Envs(e) :
            (\A p \in DOMAIN late : env.d[p] = late[p])
              => /\ Value(f, env) = Value(e, env)
                 /\ Violated(f, env) = Violated(e, env)
       /\ Labels(f) = Labels(e) /\ Vars(f) = Vars(e)

MapLaw ==
  Compiled =>
    LET e == Top
        sw == Map(<<"mapswap", 0>>, e)
    IN /\ Map(<<"mapid", 0>>, e) = e
       /\ Map(<<"mapswap", 0>>, sw) = e
       /\ Len(Seen(<<"mapid", 0>>, e)) = Size(e)
       /\ \A env \in Envs(e) :
            Value(Map(<<"mapstripall", 0>>, e), env) =
              Main(e, env)

\* Every compiled program is a behaviour for the real library.
Pairs(f) == LET RECURSIVE Go(_)
                Go(D) == IF D = {} THEN <<>>
                         ELSE LET k == CHOOSE k \in D : \A j \in D : k <= j
                              IN <<<<k, f[k]>>>> \o Go(D \ {k})
            IN Go(DOMAIN f)
Dump == Compiled => PrintT(<<"BEH", ToJson([ops |-> prog, pre |-> Pairs(pre), cf |-> Pairs(cf),
                                            fed |-> Feeding # "none"])>>)
=============================================================================
