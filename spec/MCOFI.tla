------------------------------- MODULE MCOFI -------------------------------
EXTENDS OFI, Json, TLC
CONSTANTS Cuts, LevelKind, Extra, MaxLen, Kinds
Full == {[p |-> p, q |-> q] : p \in 1..3, q \in 0..2}
Thin == {[p |-> 1, q |-> 1], [p |-> 2, q |-> 0], [p |-> 2, q |-> 3]}
Mid3 == Thin \cup {[p |-> 1, q |-> 0], [p |-> 3, q |-> 5]}
Levels == IF LevelKind = "full" THEN Full ELSE IF LevelKind = "mid" THEN Mid3 ELSE Thin
VARIABLES hist, last
vars == <<feat, hist, last>>
Pad == [i \in 1..Extra |-> [p |-> 7, q |-> 7]]
Side(c) == {s \o Pad : s \in [1..c -> Levels]}
Datas == UNION {{[cut |-> c, bids |-> b, asks |-> a, ts |-> 0, sys |-> 0] : b \in Side(c), a \in Side(c)} : c \in Cuts}
Stamp(d) == [d EXCEPT !.ts = 10 * (Len(hist) + 1), !.sys = 10 * (Len(hist) + 1) + 7]
Log(r) == hist' = Append(hist, r)
Init == feat = Empty(0) /\ hist = <<>> /\ last = [ok |-> TRUE]
New == \E dd \in Datas, k \in Kinds : LET d == Stamp(dd) IN
          feat' = FromData(d) /\ Log([op |-> "new", k |-> k, d |-> d]) /\ last' = [ok |-> TRUE]
Cap == \E n \in Cuts : feat' = Empty(n) /\ Log([op |-> "cap", n |-> n]) /\ last' = [ok |-> TRUE]
Update == \E dd \in Datas, k \in Kinds : LET d == Stamp(dd) IN
          /\ feat' = Updated(feat, d)
          /\ Log([op |-> "upd", k |-> k, d |-> d]) /\ last' = [ok |-> Accepts(feat, d)]
Arrive == \E dd \in Datas, k \in Kinds : LET d == Stamp(dd) g == FromData(d) IN
          /\ UNCHANGED feat
          /\ Log([op |-> "arr", k |-> k, d |-> d])
          /\ last' = [ok |-> TRUE,
                      flow |-> [i \in 0..4 |-> IF LevelOk(feat, g, i) THEN [ok |-> TRUE, f |-> Flow(feat, g, i), ln |-> LnFlow(feat, g, i)]
                                               ELSE [ok |-> FALSE]]]
Next == \/ hist = <<>> /\ (New \/ Cap)
        \/ hist # <<>> /\ Len(hist) < MaxLen /\ (Update \/ Arrive)
Spec == Init /\ [][Next]_vars
View == <<feat.cut, feat.bids, feat.asks, Len(hist)>>
\* mirroring the market (prices negated, sides exchanged) exchanges the two flows
MirrorLaw == [][\A i \in 1..feat.cut : i <= feat'.cut =>
                 LET a == Flow(feat, feat', i) b == Flow(Mirror(feat), Mirror(feat'), i)
                 IN a.bid = b.ask /\ a.ask = b.bid]_vars
Cover == PrintT("@@" \o ToJson([h |-> hist', feat |-> feat', last |-> last', prices |-> Prices(feat')]))
=============================================================================
