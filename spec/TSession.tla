------------------------------ MODULE TSession ------------------------------
(***************************************************************************)
(* Validates recorded sessions (program, compile, feed, everything a user  *)
(* can see of the compiled model) against Expr.  IOEnv.CHECK names the     *)
(* property whose conjuncts apply; the event order and the absence of      *)
(* panics, hangs and crashes are always required: no action explains them. *)
(***************************************************************************)
EXTENDS Expr, TLC, Json, IOUtils, Bags

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chk == IOEnv.CHECK
On(S) == Chk \in S \/ Chk = "ALL"

VARIABLES i, s
vars == <<i, s>>

Fresh == [ph |-> "idle", st |-> <<>>, u |-> 1, w |-> 1, d |-> <<>>, e |-> <<>>,
          c0 |-> 0, nanc |-> 0, keys |-> <<>>]

Init == i = 1 /\ s = Fresh

ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Step == i' = i + 1

Range(q) == {q[j] : j \in 1..Len(q)}
Env(e, x) == [x |-> x, d |-> s.d, w |-> [l \in Labels(e) |-> s.w], u |-> s.u]

Reset == Is("Reset") /\ Step /\ s' = Fresh
End == Is("End") /\ Step /\ s' = Fresh

Begin == Is("Begin") /\ s.ph = "idle" /\ Step
         /\ s' = [Fresh EXCEPT !.ph = "build", !.u = ev.unit, !.w = ev.w]

Op == Is("Op") /\ s.ph = "build" /\ Step
      /\ s' = [s EXCEPT !.st = Apply(ev.op, s.st, s.u)]

Compile == Is("Compile") /\ s.ph = "build" /\ Step
           /\ s' = [s EXCEPT !.ph = "compiled", !.e = s.st[Len(s.st)]]

\* A model is refused exactly if a placeholder has no value.
CFeed ==
  /\ Is("CFeed") /\ s.ph = "compiled" /\ Step
  /\ LET d == DictOf(ev.d)
         complete == Phs(s.e) \subseteq DOMAIN d
     IN /\ On({"C05", "C04"}) => ev.ok = complete
        /\ s' = [s EXCEPT !.ph = IF ev.ok /\ complete THEN "fed" ELSE "skip", !.d = d]

TabChecks == {"C01", "C02", "C04", "C07", "C15", "C19", "C10"}

\* Could the energies be those of the expression if label k had the place
\* f[k]?  Places without a label are minimised over; constants aside.
Explains(f, n, raw, e, vs) ==
  LET m == Len(vs)
      Pw == [k \in 0..n |-> 2 ^ k]
      Bit(a, p) == (a \div Pw[p - 1]) % 2
      Low(x) == LET S == {a \in 0..Pw[n] - 1 : \A k \in 1..m : Bit(a, f[k]) = (x \div Pw[k - 1]) % 2}
                IN CHOOSE v \in {raw[a + 1] : a \in S} : \A a \in S : v <= raw[a + 1]
      Val(x) == Value(e, Env(e, Asg(vs, x)))
  IN \A x \in 0..Pw[m] - 1 : Low(x) - Low(0) = Val(x) - Val(0)

\* No other assignment of places to labels explains what the assignment in
\* use does not.
Placed(o) ==
  LET m == Len(o.keys)
      n == m + o.nanc
      ok(f) == Explains(f, n, o.raw, s.e, o.keys)
  IN Len(o.raw) > 0 =>
       \/ ok(o.at)
       \/ ~\E f \in [1..m -> 1..n] : (\A j, k \in 1..m : f[j] = f[k] => j = k) /\ ok(f)

Observe ==
  /\ Is("Observe") /\ s.ph = "fed" /\ Step
  /\ LET vs == ev.keys
         V == Vars(s.e)
         sound == ~ev.bad /\ Range(vs) = V /\ Len(vs) = Cardinality(V)
     IN
     /\ On({"C03"}) =>
          /\ sound
          /\ Range(ev.got) = V /\ Len(ev.got) = Cardinality(V)
          /\ Range(ev.gq) = V /\ Len(ev.gq) = Cardinality(V)
          /\ Placed(ev)
     /\ On(TabChecks) =>
          /\ sound /\ ev.exact
          /\ \A k \in 1..Len(ev.tab) : ev.tab[k] = Value(s.e, Env(s.e, Asg(vs, k - 1)))
     /\ s' = [s EXCEPT !.ph = IF sound THEN "seen" ELSE "skip",
                       !.keys = vs, !.nanc = ev.nanc,
                       !.c0 = IF sound THEN Value(s.e, Env(s.e, [v \in V |-> 0])) ELSE 0]

Ret ==
  /\ Is("Ret") /\ s.ph = "seen" /\ Step /\ UNCHANGED s
  /\ On({"C03"}) => /\ ev.x = ev.want /\ ev.idx /\ ev.keys = s.keys
  /\ LET env == Env(s.e, AsgOf(s.keys, ev.want))
         val == Value(s.e, env)
         flip(v) == Value(s.e, [env EXCEPT !.x[v] = 1 - @])
     IN
     /\ On({"C06", "C04", "C07", "C19"}) => Range(ev.labels) = Violated(s.e, env)
     /\ On({"C02", "C10"}) =>
          IF ev.opt \/ s.nanc = 0 THEN ev.e = val ELSE ev.e >= val
     /\ (On({"C01", "C04", "C07", "C15", "C19"}) /\ ev.opt) => ev.e = val
     /\ On({"C10"}) =>
          /\ ev.exact /\ ev.x = ev.want
          /\ ev.e - ev.sole = s.c0
          /\ \A k \in 1..Len(ev.lf) :
               /\ ev.lf[k][1] = ev.lf[k][2]
               /\ (s.nanc = 0) => (ev.lf[k][1] = flip(s.keys[k]) - val)

(***************************************************************************)
(* Sessions with numbers a + b * T: energies are pairs of digits.          *)
(***************************************************************************)
DigitsAt(e, keys, x) ==
  LET env(T) == [x |-> AsgOf(keys, x), w |-> [l \in Labels(e) |-> s.w], u |-> 1, T |-> T,
                 d |-> [p \in DOMAIN s.d |-> s.d[p][1] + s.d[p][2] * T]]
      lo == Value(e, env(0))
  IN <<lo, Value(e, env(1)) - lo>>

ViolatedB(e, keys, x) ==
  LET env(T) == [x |-> AsgOf(keys, x), w |-> [l \in Labels(e) |-> s.w], u |-> 1, T |-> T,
                 d |-> [p \in DOMAIN s.d |-> s.d[p][1] + s.d[p][2] * T]]
      o == Occ(e)
  IN {o[k][1] : k \in {j \in 1..Len(o) : Main(o[j][2], env(0)) # 0 \/ Main(o[j][2], env(1)) # 0}}

Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Less(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])

BRet ==
  /\ Is("BRet") /\ s.ph = "fed" /\ Step /\ UNCHANGED s
  /\ LET val == DigitsAt(s.e, ev.keys, ev.want)
         zero == DigitsAt(s.e, ev.keys, [k \in 1..Len(ev.keys) |-> 0])
     IN
     /\ Range(ev.keys) = Vars(s.e) /\ ev.x = ev.want
     /\ On({"C01", "C04", "C10", "C15"}) => ev.e = val
     /\ On({"C06", "C04"}) => Range(ev.labels) = ViolatedB(s.e, ev.keys, ev.want)
     /\ On({"C10"}) =>
          /\ ev.sole = Minus(val, zero)
          /\ \A k \in 1..Len(ev.keys) :
               ev.lf[k] = Minus(DigitsAt(s.e, ev.keys, [ev.want EXCEPT ![k] = 1 - @]), val)

\* One generation with several samples, none of which is lower than the result.
BPick ==
  /\ Is("BPick") /\ s.ph = "fed" /\ Step /\ UNCHANGED s
  /\ On({"C09", "C10"}) =>
     LET val(x) == DigitsAt(s.e, ev.keys, x) IN
     /\ ev.x \in Range(ev.xs)
     /\ ev.e = val(ev.x)
     /\ \A k \in 1..Len(ev.xs) : ~Less(val(ev.xs[k]), val(ev.x))

\* Nothing can be said after a refusal.
Skip == i <= Len(Trace) /\ s.ph = "skip" /\ ev.ev \in {"Observe", "Ret"} /\ Step /\ UNCHANGED s

(***************************************************************************)
(* Mapping.                                                                *)
(***************************************************************************)
Built ==
  /\ Is("Built") /\ s.ph = "build" /\ Step
  /\ On({"C19"}) => ev.e = s.st[Len(s.st)]
  /\ s' = [s EXCEPT !.ph = "tree", !.e = ev.e]

BagOf(q) == [v \in Range(q) |-> Cardinality({j \in 1..Len(q) : q[j] = v})]

\* A child is visited after the node that leads to it: with equal subtrees
\* counted, the root comes first.
MapEv ==
  /\ Is("Map") /\ s.ph = "tree" /\ Step
  /\ On({"C19"}) =>
       /\ ev.e = Map(ev.op, s.e)
       /\ BagOf(ev.seen) = BagOf(Seen(ev.op, s.e))
       /\ ev.seen[1] = s.e
  /\ s' = [s EXCEPT !.e = ev.e]

Next == Reset \/ End \/ Begin \/ Op \/ Compile \/ CFeed \/ Observe \/ Ret \/ Skip
        \/ Built \/ MapEv \/ BRet \/ BPick
Spec == Init /\ [][Next]_vars

Accepted ==
  LET d == TLCGet("stats").diameter
  IN IF d - 1 = Len(Trace) THEN TRUE
     ELSE PrintT(<<"STUCK", d, Len(Trace)>>) /\ FALSE
=============================================================================
