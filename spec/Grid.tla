-------------------------------- MODULE Grid --------------------------------
(* Pillars, lookup, interpolation and distribution, in exact integers.  Pillars stand at integers, queries at half
   integers: a query q means q/2.  Values are scaled by Unit (a multiple of products of two 2 * (pillar distance)). *)
EXTENDS Integers, Sequences, FiniteSets
Unit == 14400
Sorted(d) == \A i \in 1..(Len(d) - 1) : d[i] < d[i + 1]
RECURSIVE SetToGrid(_)
SetToGrid(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetToGrid(S \ {m})
(* lookup: the last pillar not above the query, the first one when all are above it (1-based) *)
Index(d, q) == IF q < 2 * d[1] THEN 1 ELSE CHOOSE i \in 1..Len(d) : 2 * d[i] <= q /\ (i = Len(d) \/ q < 2 * d[i + 1])
(* an answer is [ok, v]; an interpolator is [kind |-> "linear" or "step", d, v, ext |-> "off" / "flat" / "linear" / "none" /
   "on" / "ends" (step only: outside the grid the two given end values), l, r] *)
No == [ok |-> FALSE, v |-> 0]
Yes(v) == [ok |-> TRUE, v |-> v]
Between(d, v, i, q) == v[i] * Unit + ((v[i + 1] - v[i]) * Unit * (q - 2 * d[i])) \div (2 * (d[i + 1] - d[i]))
Linear(p, q) ==
    LET n == Len(p.d) IN
    IF q >= 2 * p.d[1] /\ q < 2 * p.d[n] THEN Yes(Between(p.d, p.v, Index(p.d, q), q))
    ELSE IF q = 2 * p.d[n] THEN Yes(p.v[n] * Unit)
    ELSE CASE p.ext = "off" -> No
           [] p.ext = "none" -> No
           [] p.ext = "flat" -> Yes(IF q < 2 * p.d[1] THEN p.v[1] * Unit ELSE p.v[n] * Unit)
           [] p.ext = "linear" -> Yes(IF q < 2 * p.d[1] THEN Between(p.d, p.v, 1, q) ELSE Between(p.d, p.v, n - 1, q))
Step(p, q) ==
    LET n == Len(p.d) IN
    IF q >= 2 * p.d[1] /\ q <= 2 * p.d[n] THEN Yes(p.v[Index(p.d, q)] * Unit)
    ELSE CASE p.ext = "off" -> No
           [] p.ext = "on" -> Yes(IF q < 2 * p.d[1] THEN p.v[1] * Unit ELSE p.v[n] * Unit)
           [] p.ext = "ends" -> Yes(IF q < 2 * p.d[1] THEN p.l * Unit ELSE p.r * Unit)
Answer(p, q) == IF p.kind = "linear" THEN Linear(p, q) ELSE Step(p, q)
(* a batch is answered point by point, and refused when any point is *)
Batch(p, qs) == LET a == [i \in 1..Len(qs) |-> Answer(p, qs[i])] IN
                IF \A i \in 1..Len(qs) : a[i].ok THEN [ok |-> TRUE, v |-> [i \in 1..Len(qs) |-> a[i].v]] ELSE [ok |-> FALSE, v |-> <<>>]
(* surfaces: linear in time between rows, each row an interpolator in x *)
Surface(t, rows, text, q, x) ==
    LET n == Len(t)
        a(i) == Linear(rows[i], x)
        mix(i) == IF a(i).ok /\ a(i + 1).ok
                  THEN Yes(a(i).v + ((a(i + 1).v - a(i).v) * (q - 2 * t[i])) \div (2 * (t[i + 1] - t[i]))) ELSE No
    IN IF q >= 2 * t[1] /\ q < 2 * t[n] THEN mix(Index(t, q))
       ELSE IF q = 2 * t[n] THEN a(n)
       ELSE CASE text \in {"off", "none"} -> No
              [] text = "flat" -> IF q < 2 * t[1] THEN a(1) ELSE a(n)
              [] text = "linear" -> IF q < 2 * t[1] THEN mix(1) ELSE mix(n - 1)
(* an amount put at a place goes to the two neighbouring pillars, in inverse proportion to distance *)
Put(d, vec, amount, q) ==
    LET n == Len(d) IN
    IF n = 0 THEN vec
    ELSE IF q <= 2 * d[1] THEN [vec EXCEPT ![1] = @ + amount * Unit]
    ELSE IF q >= 2 * d[n] THEN [vec EXCEPT ![n] = @ + amount * Unit]
    ELSE LET i == Index(d, q)
             r == (amount * Unit * (q - 2 * d[i])) \div (2 * (d[i + 1] - d[i]))
         IN [vec EXCEPT ![i] = @ + amount * Unit - r, ![i + 1] = @ + r]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Clamp(d, q) == IF q < 2 * d[1] THEN 2 * d[1] ELSE IF q > 2 * d[Len(d)] THEN 2 * d[Len(d)] ELSE q
(* laws *)
LookupLaws(d, q) == LET i == Index(d, q) IN
    /\ q >= 2 * d[1] => 2 * d[i] <= q
    /\ i < Len(d) => q < 2 * d[i + 1]
PillarLaws(p) == \A i \in 1..Len(p.d) : Answer(p, 2 * p.d[i]) = Yes(p.v[i] * Unit)
PutLaws(d, vec, amount, q) == Len(d) > 0 =>
    LET w == Put(d, vec, amount, q) IN
    /\ Sum(w) = Sum(vec) + amount * Unit
    /\ Sum([i \in 1..Len(d) |-> (w[i] - vec[i]) * 2 * d[i]]) = amount * Unit * Clamp(d, q)
=============================================================================
