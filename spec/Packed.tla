------------------------------- MODULE Packed -------------------------------
(***************************************************************************)
(* The packed state: eight booleans per byte.  What is behind the bytes is *)
(* a vector of booleans; the bytes start arbitrary, as memory does.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Lens, Depth, Garbage
Some == {0, 1, 2, 7, 8, 9, 16, 17}
Junk == {0, 165, 255}

VARIABLES len, bytes, v, init, hist, outs
vars == <<len, bytes, v, init, hist, outs>>

Pow2(n) == <<1, 2, 4, 8, 16, 32, 64, 128>>[n + 1]
Bit(byte, n) == (byte \div Pow2(n)) % 2
Size(n) == (n + 7) \div 8
Put(b, i, on) ==
  LET k == (i \div 8) + 1
      o == Bit(b[k], i % 8)
      n == IF on THEN 1 ELSE 0
  IN [b EXCEPT ![k] = @ + (n - o) * Pow2(i % 8)]
Get(b, i) == Bit(b[(i \div 8) + 1], i % 8)

RECURSIVE Fill(_, _, _)
Fill(b, w, i) == IF i > Len(w) THEN b ELSE Fill(Put(b, i - 1, w[i] = 1), w, i + 1)

Pattern(n, p) == [i \in 1..n |-> CASE p = 0 -> 0 [] p = 1 -> 1 [] p = 2 -> i % 2 [] OTHER -> IF i = n THEN 1 ELSE 0]

Init ==
  \E n \in Lens, p \in 0..3, j \in Garbage :
    /\ len = n /\ init = Pattern(n, p) /\ v = Pattern(n, p)
    /\ bytes = Fill([k \in 1..Size(n) |-> j], Pattern(n, p), 1)
    /\ hist = <<>> /\ outs = <<>>

\* Places where something can go wrong: borders of bytes, of the vector, and beyond.
Places == {0, 1, 6, 7, 8, 15, 16, len - 1, len, len + 1, len + 7} \cap 0..100
In(i) == i < len

Op(name, i, b, w, o) == bytes' = b /\ v' = w /\ hist' = Append(hist, <<name, i>>) /\ outs' = Append(outs, o)

Next ==
  /\ Len(hist) < Depth
  /\ \E i \in Places :
       \/ \E on \in {0, 1} :
            IF In(i) THEN Op(IF on = 1 THEN "set1" ELSE "set0", i, Put(bytes, i, on = 1), [v EXCEPT ![i + 1] = on], <<>>)
            ELSE Op(IF on = 1 THEN "set1" ELSE "set0", i, bytes, v, "refused")
       \/ IF In(i) THEN Op("flip", i, Put(bytes, i, Get(bytes, i) = 0), [v EXCEPT ![i + 1] = 1 - @], <<>>)
          ELSE Op("flip", i, bytes, v, "refused")
       \/ IF In(i) THEN Op("get", i, bytes, v, Get(bytes, i)) ELSE Op("get", i, bytes, v, "refused")
  /\ UNCHANGED <<len, init>>
Spec == Init /\ [][Next]_vars

\* The bytes are the vector, and stay bytes; the length never changes.
Refines == /\ Len(bytes) = Size(len) /\ Len(v) = len
           /\ \A i \in 1..len : Get(bytes, i - 1) = v[i]
           /\ \A k \in 1..Len(bytes) : bytes[k] \in 0..255
\* What lies beyond the length is not touched.
Beyond == [][\A i \in len..(8 * Size(len) - 1) : Get(bytes', i) = Get(bytes, i)]_vars
\* An operation on one position leaves all others alone.
Local == [][\A i \in 1..len : v'[i] # v[i] => hist'[Len(hist')][2] = i - 1]_vars

Dump == (Len(hist) = Depth /\ \A k \in 1..Len(bytes) : TRUE) =>
          PrintT(<<"BEH", ToJson([init |-> init, hist |-> hist])>>)
=============================================================================
