-------------------------------- MODULE TNum --------------------------------
(***************************************************************************)
(* Validates recorded conversions: whatever both types represent exactly   *)
(* is preserved, by every route between them.                              *)
(***************************************************************************)
EXTENDS Num, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chk == IOEnv.CHECK
On(S) == Chk \in S \/ Chk = "ALL"

VARIABLES i, s
vars == <<i, s>>

Init == i = 1 /\ s = 0
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Step == i' = i + 1

Reset == Is("Reset") /\ Step /\ s' = 0
End == Is("End") /\ Step /\ s' = 0

\* res: <<route, target type, result>>.  The common type of two types is the
\* target of the routes "lhs" and "rhs"; it is one of the two.
Conv ==
  /\ Is("Conv") /\ Step /\ UNCHANGED s
  /\ Represents(ev.from, ev.v) /\ Same(ev.shown, ev.v)
  /\ On({"C22"}) =>
     /\ \A k \in 1..Len(ev.res) :
          LET r == ev.res[k] IN
          /\ r[2] \in Types
          /\ Represents(r[2], ev.v) => Same(r[3], ev.v)
     /\ \A k \in 1..Len(ev.common) : LET c == ev.common[k] IN c[3] \in {c[1], c[2]}

\* Helpers on two numbers of one type.  The magnitude of the lowest integer
\* is not asked for.
Helpers ==
  /\ Is("Ops") /\ Step /\ UNCHANGED s
  /\ Represents(ev.t, ev.a) /\ Represents(ev.t, ev.b)
  /\ On({"C24"}) =>
     /\ Same(ev.min, Smaller(ev.a, ev.b)) /\ Same(ev.max, Larger(ev.a, ev.b))
     /\ Len(ev.abs) > 0 => Same(ev.abs[1], Magnitude(ev.a))
     /\ (Len(ev.abs) = 0) => Same(ev.a, Lowest(ev.t))
     /\ Same(ev.zero, Nil) /\ Same(ev.one, One)
     /\ Same(ev.high, Highest(ev.t)) /\ Same(ev.low, Lowest(ev.t))
     /\ ev.fin = (IF ev.a[2] = Inf THEN 0 ELSE 1)
     /\ IF IsFloat(ev.t) THEN ev.nan_or[2] = Inf /\ Len(ev.nan_or[3]) = 2 /\ ev.nanfin = 0
        ELSE Same(ev.nan_or, ev.b)

Next == Reset \/ End \/ Conv \/ Helpers
Spec == Init /\ [][Next]_vars

Accepted ==
  LET d == TLCGet("stats").diameter
  IN IF d - 1 = Len(Trace) THEN TRUE
     ELSE PrintT(<<"STUCK", d, Len(Trace)>>) /\ FALSE
=============================================================================
