------------------------------ MODULE MCInstId ------------------------------
EXTENDS InstId, Json, TLC, SequencesExt
CONSTANTS Texts, Vs, MaxIds
VARIABLE hist
vars == <<ivars, hist>>
Init == IInit /\ hist = <<>>
Next == /\ Len(ids) < MaxIds
        /\ \/ \E k \in Kinds, x \in Texts, v \in Vs, r \in {"new", "json"} :
                Make(Key(k, x, v)) /\ hist' = Append(hist, [op |-> "mk", route |-> r, k |-> k, x |-> x, v |-> v])
           \/ Make(DefaultKey) /\ hist' = Append(hist, [op |-> "mk", route |-> "default", k |-> "isin", x |-> "", v |-> "KRX"])
           \/ \E n \in 1..Len(ids) : Again(n) /\ hist' = Append(hist, [op |-> "again", n |-> n])
Spec == Init /\ [][Next]_vars
Interned == \A i \in 1..Len(ids) : ids[i] \in cache
Cover == PrintT("@@" \o ToJson([h |-> hist', ids |-> ids', eq |-> SetToSortSeq(EqualTo(ids', Len(ids')), <)]))
=============================================================================
