------------------------------ MODULE MCDayRoll ------------------------------
EXTENDS DayRoll, Json, TLC
CONSTANTS MaxLen
VARIABLE hist
vars == <<dvars, hist>>
Times == {<<0, 0>>, <<1, 1>>, <<32399, 999999>>, <<54000, 0>>, <<54000, 1>>, <<57599, 5>>, <<86399, 999999>>}
Offs == {0, 32400, 50400}
D0 == 19000
Instants == {<<D0 + d, s, 0>> : d \in {0, 1, 3}, s \in {0, 60000}}
Log(r) == hist' = Append(hist, r)
Init == DInit(D0) /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E t \in Times, o \in Offs : Feed(t[1], t[2], o) /\ Log([op |-> "feed", s |-> t[1], u |-> t[2], off |-> o])
           \/ \E i \in Instants : SetTimestamp(i) /\ Log([op |-> "set", i |-> i])
           \/ \E i \in Instants : Cache(i) /\ Log([op |-> "cache", i |-> i])
           \/ Increment /\ Log([op |-> "incr"])
           \/ \E i \in Instants : Restart(i) /\ Log([op |-> "restart", i |-> i])
Spec == Init /\ [][Next]_vars
View == <<dvars, Len(hist)>>
SameTod == [][ts' # ts /\ hist'[Len(hist')].op = "feed" =>
                LET e == hist'[Len(hist')] IN ts'[2] = (e.s + e.off) % 86400 /\ ts'[3] = e.u]_vars
(* the step of a whole day is the smallest that works *)
Least == [][hist'[Len(hist')].op = "feed" /\ base' > base /\ prev # <<>> =>
                Behind(prev, <<ts'[1] - 1, ts'[2], ts'[3]>>)]_vars
Cover == PrintT("@@" \o ToJson([h |-> hist', d0 |-> D0, base |-> base', prev |-> prev', ts |-> ts']))
=============================================================================
