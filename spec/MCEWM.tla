------------------------------- MODULE MCEWM -------------------------------
EXTENDS EWM, Json, TLC
CONSTANTS Rates, Xs, Ds, MaxLen, Emit
XsQuick == {-3, 0, 8}
XsBig == {-3, 0, 1, 8}
VARIABLE hist
vars == <<evars, hist>>
Init == (\E rr \in Rates, v \in {0, 5} : EInit(rr, v)) /\ hist = <<>>
Next == /\ Len(obs) < MaxLen
        /\ \E x \in Xs, d \in Ds : Observe(x, d) /\ hist' = Append(hist, [x |-> x, d |-> d, avg |-> avg', sum |-> sum'])
Spec == Init /\ [][Next]_vars
NoMove == [][at' = at => avg' = avg]_vars
Cover == (Emit /\ Len(hist') = MaxLen) => PrintT("@@" \o ToJson([r |-> r, a0 |-> a0, one |-> One, h |-> hist']))
=============================================================================
