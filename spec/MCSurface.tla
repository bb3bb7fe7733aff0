----------------------------- MODULE MCSurface ------------------------------
(* A volatility-like surface is set up and asked at (time, x). *)
EXTENDS Grid, Json, TLC
CONSTANTS Top, MaxLen, Patterns, Emit
VARIABLES s, asked
vars == <<s, asked>>
Grids(k) == {SetToGrid(S) : S \in {x \in SUBSET (0..Top) : Cardinality(x) >= k /\ Cardinality(x) <= MaxLen}}
Pat(k, i, j) == CASE k = 1 -> 2 * i + 3 * j [] k = 2 -> ((5 * i * j + i) % 7) - 2 [] k = 3 -> ((i + j) % 2) * 4
Exts == {"off", "flat", "linear", "none"}
Init == /\ asked = <<>>
        /\ s \in [t : Grids(2), x : Grids(2), k : Patterns, te : Exts, xe : Exts]
Rows == [i \in 1..Len(s.t) |-> [kind |-> "linear", d |-> s.x, v |-> [j \in 1..Len(s.x) |-> Pat(s.k, i, j)], ext |-> s.xe, l |-> 0, r |-> 0]]
Qs == -1..(2 * Top + 1)
Next == asked = <<>> /\ asked' \in Qs \X Qs /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
Ans(q) == Surface(s.t, Rows, s.te, q[1], q[2])
(* on the pillars the surface is the data *)
Laws == asked = <<>> =>
          \A i \in 1..Len(s.t) : \A j \in 1..Len(s.x) : Ans(<<2 * s.t[i], 2 * s.x[j]>>) = Yes(Pat(s.k, i, j) * Unit)
Cover == Emit => PrintT("@@" \o ToJson([t |-> s.t, x |-> s.x, rows |-> [i \in 1..Len(s.t) |-> Rows[i].v], te |-> s.te, xe |-> s.xe,
            q |-> asked', a |-> Ans(asked')]))
=============================================================================
