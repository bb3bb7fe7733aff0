----------------------------- MODULE MCCounter -----------------------------
(* All interleavings of draws; the observer must accept every one of them (no false alarm), and the
   observed values are consecutive.  Tests: the draws in the order their numbers were fixed. *)
EXTENDS Counter, Json, TLC
CONSTANTS Lasts, MaxDraws, Emit
LastsQuick == {-1, 0, 2, 1000}
LastsBig == {-1, 0, 1, 3, 5, 1000}
VARIABLES hist, accepted
vars == <<cvars, ovars, hist, accepted>>
Init == (\E l \in Lasts : CInit(l)) /\ OInit /\ hist = <<>> /\ accepted = TRUE
Step(A) == IF A' THEN TRUE ELSE TRUE
DoCall(t) == Call(t) /\ OCall(t) /\ UNCHANGED <<hist, accepted>>
DoFix(t) == next < MaxDraws /\ Fix(t) /\ UNCHANGED <<ovars, accepted>>
            /\ hist' = Append(hist, IF next <= last THEN next ELSE -1)
DoRet(t) == /\ Ret(t) /\ UNCHANGED hist
            /\ IF ENABLED ORet(t, ~Refused(t), val[t], last)
               THEN ORet(t, ~Refused(t), val[t], last) /\ UNCHANGED accepted
               ELSE accepted' = FALSE /\ UNCHANGED ovars
Next == \E t \in Threads : DoCall(t) \/ DoFix(t) \/ DoRet(t)
Spec == Init /\ [][Next]_vars
Accepts == accepted
Quiet == (\A t \in Threads : st[t] = "out") => owed = {} /\ (next <= last + 1 => mayNext = next)
View == <<cvars, ovars, accepted>>
Cover == (Emit /\ hist' # hist) => PrintT("@@" \o ToJson([last |-> last', h |-> hist']))
=============================================================================
