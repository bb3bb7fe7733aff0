------------------------------- MODULE MCGrid -------------------------------
(* An interpolator is set up over some grid, then asked. *)
EXTENDS Grid, Json, TLC
CONSTANTS Top, MaxLen, Patterns, Emit
VARIABLES p, asked
vars == <<p, asked>>
Grids == {SetToGrid(S) : S \in {x \in SUBSET (0..Top) : x # {} /\ Cardinality(x) <= MaxLen}}
Pat(k, i) == CASE k = 1 -> ((3 * i * i) % 7) - 2 [] k = 2 -> 5 - 2 * i [] k = 3 -> (i % 2) * 4 [] k = 4 -> (11 * i) % 13
Vals(d, k) == [i \in 1..Len(d) |-> Pat(k, i)]
Exts(d) == {"off", "flat", "none"} \cup (IF Len(d) >= 2 THEN {"linear"} ELSE {})
Pols == UNION {{[kind |-> "linear", d |-> d, v |-> Vals(d, k), ext |-> e, l |-> 0, r |-> 0] : e \in Exts(d), k \in Patterns} \cup
               {[kind |-> "step", d |-> d, v |-> Vals(d, k), ext |-> e, l |-> 9, r |-> -9] : e \in {"off", "on", "ends"}, k \in Patterns} : d \in Grids}
Qs == -2..(2 * Top + 2)
Batches == {<<q>> : q \in Qs} \cup {<<q, q + 1, q + 1>> : q \in Qs} \cup {<<q, q + 3, q + 4, q + 4>> : q \in Qs} \cup {<<q, q + 2>> : q \in Qs} \cup {<<q, q + 2, q + 9>> : q \in Qs}
           \cup {[i \in 1..(2 * Top + 5) |-> i - 3], [i \in 1..(2 * Top + 1) |-> i - 1], <<>>}
           \cup {[i \in 1..5 |-> q + 3 * i] : q \in -5..3}
Init == p \in Pols /\ asked = <<>>
Next == asked = <<>> /\ \E b \in Batches : asked' = b /\ b # <<>> /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
Laws == /\ asked = <<>> => PillarLaws(p) /\ \A q \in Qs : LookupLaws(p.d, q)
        /\ asked # <<>> => (Batch(p, asked).ok = \A i \in 1..Len(asked) : Answer(p, asked[i]).ok)
Cover == Emit => PrintT("@@" \o ToJson([p |-> p, q |-> asked', idx |-> [i \in 1..Len(asked') |-> Index(p.d, asked'[i])],
            one |-> [i \in 1..Len(asked') |-> Answer(p, asked'[i])], all |-> Batch(p, asked')]))
=============================================================================
