-------------------------------- MODULE MCPut --------------------------------
(* Amounts are put on a grid one after the other. *)
EXTENDS Grid, Json, TLC
CONSTANTS Top, MaxLen, Amounts, MaxPuts, Emit
VARIABLES d, vec, hist
vars == <<d, vec, hist>>
(* all small grids; and a few with wide gaps, asked next to their pillars, where one neighbour's share is tiny *)
Small == {SetToGrid(S) : S \in {x \in SUBSET (0..Top) : Cardinality(x) <= MaxLen}}
Wide == {<<0, 200>>, <<0, 1, 201>>, <<0, 450, 650>>, <<0, 900>>, <<0, 100, 105, 825>>}
Places(g) == IF g \in Wide THEN UNION {(2 * g[i] - 2)..(2 * g[i] + 2) : i \in 1..Len(g)} \cup {g[1] + g[Len(g)]} ELSE -2..(2 * Top + 2)
Init == d \in Small \cup Wide /\ vec = [i \in 1..Len(d) |-> 0] /\ hist = <<>>
Next == /\ Len(hist) < MaxPuts
        /\ \E a \in Amounts, q \in Places(d) :
             /\ vec' = Put(d, vec, a, q) /\ hist' = Append(hist, [a |-> a, q |-> q]) /\ UNCHANGED d
Spec == Init /\ [][Next]_vars
Conserves == [][\A h \in {hist'[Len(hist')]} : PutLaws(d, vec, h.a, h.q)]_vars
Total == Len(d) > 0 => Sum(vec) = Unit * Sum([i \in 1..Len(hist) |-> hist[i].a])
AmtQuick == {1, -3}
AmtBig == {1, -3, 7}
Cover == Emit => PrintT("@@" \o ToJson([d |-> d, h |-> hist', vec |-> vec']))
View == <<d, vec, Len(hist)>>
=============================================================================
