---------------------------- MODULE MCEngineConf ----------------------------
(* Configurations: one or two sizes of bumps out of order, with every flag and horizon. *)
EXTENDS Engine, Json, TLC
CONSTANTS Emit
VARIABLES t, done
vars == <<t, done>>
Bad == {-10000, -1, 0}
Bumps == {[j \in 1..7 |-> 10000]} \cup {[j \in 1..7 |-> IF j \in {k, l} THEN b ELSE 10000] : k \in 1..7, l \in 1..7, b \in Bad \cup {1}} \cup {[j \in 1..7 |-> b] : b \in Bad}
Tests == [delta : BOOLEAN, gamma : BOOLEAN, bumps : Bumps, day : {-1, 0, 1, 30}]
Init == t \in Tests /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Ok(x) == Accepts(x.delta, x.gamma, x.bumps, x.day)
(* putting one thing right never spoils a configuration *)
Laws == ~done => /\ Ok(t) => Ok([t EXCEPT !.bumps = [j \in 1..7 |-> 1]]) /\ Ok([t EXCEPT !.day = 1])
                 /\ ~Ok([t EXCEPT !.delta = ~t.gamma])
Cover == Emit => PrintT("@@" \o ToJson([delta |-> t.delta, gamma |-> t.gamma, bumps |-> t.bumps, day |-> t.day, accepts |-> Ok(t)]))
=============================================================================
