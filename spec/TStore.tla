------------------------------- MODULE TStore -------------------------------
(***************************************************************************)
(* Validates recorded use of the data structures of the annealers crate:   *)
(* the packed state, the interaction stores, energies, structured views.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chk == IOEnv.CHECK
On(S) == Chk \in S \/ Chk = "ALL"

VARIABLES i, s
vars == <<i, s>>

Fresh == [ph |-> "idle"]
Init == i = 1 /\ s = Fresh
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Step == i' = i + 1
Range(q) == {q[j] : j \in 1..Len(q)}
Distinct(q) == Cardinality(Range(q)) = Len(q)

Reset == Is("Reset") /\ Step /\ s' = Fresh
End == Is("End") /\ Step /\ s' = Fresh

(***************************************************************************)
(* C18: the packed state is a vector of booleans (positions from 0).       *)
(***************************************************************************)
Shown(v, e) == e.vec = v /\ e.iter = v /\ e.idx = v /\ e.len = Len(v)

ReprNew ==
  /\ Is("ReprNew") /\ s.ph = "idle" /\ Step
  /\ LET v == IF ev.random THEN ev.vec ELSE ev.init IN
     /\ On({"C18"}) => /\ Len(v) = Len(ev.init)
                       /\ Shown(v, ev)
                       /\ ev.empty = (v = <<>>)
     /\ s' = [ph |-> "repr", v |-> v, old |-> <<FALSE, <<>>>>]

Put(v, k, b) == [v EXCEPT ![k + 1] = b]

ReprOp ==
  /\ Is("ReprOp") /\ s.ph = "repr" /\ Step
  /\ LET in == ev.i < Len(s.v)
         o == ev.op
         v == CASE o \in {"set", "uset"} -> IF in THEN Put(s.v, ev.i, ev.v) ELSE s.v
                [] o \in {"flip", "uflip"} -> IF in THEN Put(s.v, ev.i, 1 - s.v[ev.i + 1]) ELSE s.v
                [] o = "back" -> IF s.old[1] THEN s.old[2] ELSE s.v
                [] OTHER -> s.v
     IN
     /\ On({"C18"}) =>
          /\ (o \in {"set", "flip", "get", "idx"}) => ev.ok = in
          /\ (o \in {"get", "idx"} /\ in) => ev.v = s.v[ev.i + 1]
          /\ Shown(v, ev)
          /\ ev.sol = v /\ ev.sidx = v /\ ev.sun = v /\ ev.slen = Len(v)
          /\ ev.dbg = v       \* the list its debug text shows
          /\ ev.more = 0      \* the iterator stays at its end
     /\ s' = [s EXCEPT !.v = v,
                       !.old = IF o = "clone" THEN <<TRUE, s.v>>
                               ELSE IF o = "back" THEN <<FALSE, <<>>>> ELSE @]

\* Long states: the set of the positions that are true.
LongNew ==
  /\ Is("LongNew") /\ s.ph = "idle" /\ Step
  /\ s' = [ph |-> "long", len |-> ev.len, ones |-> Range(ev.ones)]

Sorted(q, S) == Range(q) = S /\ \A k \in 1..Len(q) - 1 : q[k] < q[k + 1]

Long ==
  /\ Is("Long") /\ s.ph = "long" /\ Step
  /\ LET in == ev.i < s.len
         T == CASE ~in -> s.ones
                [] ev.op = "set" -> IF ev.v = 1 THEN s.ones \cup {ev.i} ELSE s.ones \ {ev.i}
                [] ev.op = "flip" -> IF ev.i \in s.ones THEN s.ones \ {ev.i} ELSE s.ones \cup {ev.i}
                [] OTHER -> s.ones
     IN
     /\ On({"C18"}) => /\ ev.ok = in /\ ev.len = s.len
                       /\ (ev.op = "get" /\ in) => ev.v = (IF ev.i \in T THEN 1 ELSE 0)
                       /\ Sorted(ev.iter, T) /\ Sorted(ev.vec, T) /\ Sorted(ev.idx, T)
     /\ s' = [s EXCEPT !.ones = T]

(***************************************************************************)
(* C17: the stores are maps from terms to accumulated weights.             *)
(***************************************************************************)
Store ==
  /\ Is("Store") /\ s.ph = "idle" /\ Step
  /\ s' = [ph |-> "store", sparse |-> ev.sparse, n |-> ev.n, kept |-> <<>>,
           order |-> IF ev.high THEN 5 ELSE 2,
           w |-> IF ev.sparse THEN <<>>
                 ELSE [p \in {{a, b} : a, b \in 0..ev.n - 1} |-> 0]]

Add ==
  /\ Is("Add") /\ s.ph = "store" /\ Step
  /\ LET p == Range(ev.p) IN
     s' = [s EXCEPT !.w = [q \in DOMAIN @ \cup {p} |->
             (IF q \in DOMAIN @ THEN @[q] ELSE 0) + (IF q = p THEN ev.w ELSE 0)]]

Terms == [k \in 1..Len(ev.prods) |-> Range(ev.prods[k])]

Look ==
  /\ Is("Look") /\ s.ph = "store" /\ Step /\ UNCHANGED s
  /\ On({"C17"}) =>
     LET T == Terms IN
     /\ Distinct(T) /\ Range(T) = DOMAIN s.w
     /\ \A k \in 1..Len(T) : ev.w[k] = s.w[T[k]] /\ ev.wu[k] = s.w[T[k]]
     /\ ev.order = s.order
     \* the term itself tells the same
     /\ s.n <= 80 => [k \in 1..Len(ev.nb) |-> ev.nb[k][1]] = [k \in 1..s.n |-> k - 1]
     /\ \A k \in 1..Len(T) : /\ ev.uses[k][1] = Cardinality(T[k])
                             /\ Range(ev.uses[k][2]) = T[k]
     /\ \A k \in 1..Len(ev.nb) :
          LET u == ev.nb[k][1]
              q == ev.nb[k][2]
              N == [j \in 1..Len(q) |-> Range(q[j])]
          IN Distinct(N) /\ Range(N) = {p \in DOMAIN s.w : u \in p}
     /\ LET V == IF s.sparse THEN UNION DOMAIN s.w ELSE 0..s.n - 1
        IN Distinct(ev.nodes) /\ Range(ev.nodes) = V /\ ev.size = Cardinality(V)
           /\ Distinct(ev.vnodes) /\ Range(ev.vnodes) = V /\ ev.vsize = Cardinality(V)

\* A model of fixed size too large to be listed: its terms are counted and
\* read at some places.
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET a == CHOOSE a \in S : TRUE IN f[a] + SumSet(S \ {a}, f)
Peek ==
  /\ Is("Peek") /\ s.ph = "store" /\ Step /\ UNCHANGED s
  /\ On({"C17"}) =>
     /\ \A k \in 1..Len(ev.w) : LET p == {ev.w[k][1], ev.w[k][2]} IN
          ev.w[k][3] = (IF p \in DOMAIN s.w THEN s.w[p] ELSE 0)
     /\ 2 * ev.count = s.n * (s.n + 1) /\ ev.distinct = ev.count /\ ev.inside
     /\ ev.sum = SumSet(DOMAIN s.w, s.w)
     /\ ev.size = s.n
     /\ \A k \in 1..Len(ev.nb) : ev.nb[k] = <<s.n, s.n, 1>>

\* a place outside a model of fixed size is neither written nor read
Bad ==
  /\ Is("Bad") /\ s.ph = "store" /\ Step /\ UNCHANGED s
  /\ (On({"C17"}) /\ ~(Range(ev.p) \subseteq 0..s.n - 1)) => ~ev.put /\ ~ev.got

\* a copy is not touched by what happens to the original
Keep == Is("Keep") /\ s.ph = "store" /\ Step /\ s' = [s EXCEPT !.kept = s.w]
Kept == Is("Kept") /\ s.ph = "store" /\ Step /\ s' = [s EXCEPT !.w = s.kept]

(***************************************************************************)
(* C16: energies of a model over two-valued variables.                     *)
(***************************************************************************)
EModel ==
  /\ Is("EModel") /\ s.ph = "idle" /\ Step
  /\ s' = [ph |-> "energy", n |-> ev.n, tv |-> ev.tv, fv |-> ev.fv,
           m |-> [k \in 1..Len(ev.m) |-> <<Range(ev.m[k][1]), ev.m[k][2]>>]]

RECURSIVE ProdSet(_, _)
ProdSet(S, f) == IF S = {} THEN 1
                 ELSE LET a == CHOOSE a \in S : TRUE IN f[a] * ProdSet(S \ {a}, f)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

EnergyAt(x) ==
  LET f == [a \in 0..s.n - 1 |-> IF x[a + 1] = 1 THEN s.tv ELSE s.fv]
  IN SumSeq([k \in 1..Len(s.m) |-> s.m[k][2] * ProdSet(s.m[k][1], f)])

EnergyEv ==
  /\ Is("Energy") /\ s.ph = "energy" /\ Step /\ UNCHANGED s
  /\ On({"C16"}) =>
     LET e == EnergyAt(ev.x)
         lf == [a \in 1..s.n |-> EnergyAt([ev.x EXCEPT ![a] = 1 - @]) - e]
     IN
     /\ ev.e = e /\ ev.we = e
     /\ ev.lf = lf /\ ev.wl = lf
     /\ ev.after = ev.x /\ ev.wafter = ev.x
     /\ ev.se = ev.pe /\ ev.ste = ev.pe
     /\ ev.sl = [a \in 1..s.n |-> ev.pl] /\ ev.stl = ev.sl
     \* an energy that is not known cannot be compared
     /\ ev.none = <<9, 9, 9>>
     /\ ev.occ = 1
     /\ ev.vals = <<s.tv, s.fv>>
     /\ ev.one = 1
     /\ ev.pv = ProdSet(1..(IF s.n < 3 THEN s.n ELSE 3), [a \in 1..s.n |-> IF ev.x[a] = 1 THEN s.tv ELSE s.fv])
     /\ ev.cmp = (IF e < ev.pe THEN -1 ELSE IF e > ev.pe THEN 1 ELSE 0)

(***************************************************************************)
(* C20: the structured view.  Pairs may come in any order that reaches     *)
(* every pair after finitely many steps; a bound of that number is not     *)
(* part of the property, so for an unbounded capacity the prefix of length *)
(* t must at least hold all pairs of the first q nodes with q*(q-1) <= t.  *)
(***************************************************************************)
AllPairs(c) == {p \in {{a, b} : a, b \in 0..c - 1} : Cardinality(p) = 2}

View ==
  /\ Is("View") /\ s.ph = "idle" /\ Step
  /\ On({"C20"}) =>
       ev.nodes = [k \in 1..(IF ev.cap < 0 \/ ev.take < ev.cap THEN ev.take ELSE ev.cap) |-> k - 1]
  /\ s' = [ph |-> "view", cap |-> ev.cap, seen |-> {}, over |-> FALSE, steps |-> 0]

Pair ==
  /\ Is("Pair") /\ s.ph = "view" /\ Step
  /\ LET p == Range(ev.p) IN
     /\ On({"C20"}) =>
          IF ev.p = <<>>
          THEN s.cap >= 0 /\ s.seen = AllPairs(s.cap)
          ELSE /\ ~s.over
               /\ Cardinality(p) = 2 /\ Len(ev.p) = 2
               /\ p \notin s.seen
               /\ s.cap >= 0 => p \subseteq 0..s.cap - 1
     /\ s' = [s EXCEPT !.seen = IF ev.p = <<>> THEN @ ELSE @ \cup {p},
                       !.over = @ \/ ev.p = <<>>, !.steps = @ + 1]

Rewind ==
  /\ Is("Rewind") /\ s.ph = "view" /\ Step
  /\ On({"C20"}) =>
       (s.cap < 0 => \A q \in 2..40 : q * (q - 1) <= s.steps => AllPairs(q) \subseteq s.seen)
  /\ s' = [s EXCEPT !.seen = {}, !.over = FALSE, !.steps = 0]

Through ==
  /\ Is("Through") /\ s.ph = "view" /\ Step /\ UNCHANGED s
  /\ On({"C20"}) => ev.a = 3 /\ ev.b = -51 /\ ev.made = 2

\* range of values: everything the number type has (-1: lowest, 1: highest
\* number) for a generator which says nothing, else what the generator says
RangeEv ==
  /\ Is("Range") /\ s.ph = "view" /\ Step /\ UNCHANGED s
  /\ On({"C20"}) => ev.gen = <<-1, 1>> /\ ev.view = ev.gen /\ ev.through = ev.own

(***************************************************************************)
(* C23: a set of node indices, whatever it is stored as.  Given: distinct  *)
(* indices in any order (how = "vec") or ascending (how = "set").          *)
(***************************************************************************)
Ascending(q) == \A k \in 1..Len(q) - 1 : q[k] < q[k + 1]

NSet ==
  /\ Is("NSet") /\ s.ph \in {"idle", "nsets"} /\ Step
  /\ LET S == Range(ev.in)
         n == Cardinality(S)
         old == IF s.ph = "idle" THEN {} ELSE s.held
     IN
     /\ Distinct(ev.in)
     /\ On({"C23"}) =>
          /\ ev.ok = (ev.ty # "pair" \/ n \in {1, 2})
          /\ ev.ok => /\ ev.len = n
                      /\ Range(ev.iter) = S /\ Ascending(ev.iter)
                      /\ ev.vec = ev.iter /\ ev.set = ev.iter /\ ev.again = ev.iter
                      /\ Range(ev.has) = {x \in Range(ev.probe) : x \in S}
                      \* equal to, and found among, exactly the same sets built before
                      /\ \A k \in 1..Len(ev.eq) : (ev.eq[k][2] = 1) = (Range(ev.eq[k][1]) = S)
                      /\ ev.found = (S \in old)
     /\ s' = [ph |-> "nsets", held |-> IF ev.ok THEN old \cup {S} ELSE old]

Next == NSet \/ Reset \/ End \/ ReprNew \/ ReprOp \/ Store \/ LongNew \/ Long \/ Add \/ Look \/ Peek \/ Bad \/ Keep \/ Kept \/ EModel \/ EnergyEv
        \/ View \/ Pair \/ Rewind \/ Through \/ RangeEv
Spec == Init /\ [][Next]_vars

Accepted ==
  LET d == TLCGet("stats").diameter
  IN IF d - 1 = Len(Trace) THEN TRUE
     ELSE PrintT(<<"STUCK", d, Len(Trace)>>) /\ FALSE
=============================================================================
