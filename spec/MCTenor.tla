------------------------------ MODULE MCTenor ------------------------------
(* The calendar as a state machine: a clock that is moved forwards and backwards by tenors. *)
EXTENDS Tenor, Json, TLC
CONSTANTS Years, Parts1, Parts2, Parts3, Secs, MaxDepth, Emit
VARIABLES x, hist
vars == <<x, hist>>
Ends(y) == {DayNo(y, m, d) : m \in 1..12, d \in {1, 15, 28}} \cup {DayNo(y, m, MonthLen(y, m)) : m \in 1..12}
           \cup {DayNo(y, m, MonthLen(y, m) - 1) : m \in {1, 3, 8, 12}}
P(u, ks) == {[u |-> u, k |-> k] : k \in ks}
P1Quick == P("Y", {1, 3, 4, 60}) \cup P("M", 1..14 \cup {18, 24, 25, 36, 60, 719}) \cup P("W", {1, 52}) \cup P("D", {1, 31, 366})
           \cup P("h", {1, 30}) \cup P("min", {61}) \cup P("sec", {1, 86399})
P2Quick == P("Y", {1}) \cup P("M", {1, 13, 18}) \cup P("D", {1, 30}) \cup P("h", {13}) \cup P("sec", {1})
P1Big == P("Y", 1..60) \cup P("M", 1..120) \cup P("W", 1..60) \cup P("D", 1..400) \cup P("h", {1, 23, 24, 25, 49}) \cup P("min", {1, 59, 1439, 1441})
         \cup P("sec", {1, 59, 86399, 86401})
P3Quick == P("M", {13}) \cup P("h", {13})
Tenors == {<<p>> : p \in Parts1} \cup {<<p, q>> : p \in Parts2, q \in Parts2} \cup {<<p, q, r>> : p \in Parts3, q \in Parts3, r \in Parts3}
Init == x \in {[n |-> n, s |-> s] : n \in UNION {Ends(y) : y \in Years}, s \in Secs} /\ hist = <<>>
Next == Len(hist) < MaxDepth /\ \E t \in Tenors, sg \in {1, -1} :
          x' = Move(x, t, sg) /\ hist' = Append(hist, [t |-> t, sg |-> sg, n |-> x.n, s |-> x.s])
Spec == Init /\ [][Next]_vars
Laws == Len(hist) = 0 => \A p \in Parts1 : \A sg \in {1, -1} : ShiftLaws(x, p.u, sg * p.k)
(* moving by a composite tenor is moving by its parts *)
Composes == [][\A t \in {hist'[Len(hist')].t} : \A sg \in {hist'[Len(hist')].sg} :
               Len(t) = 2 => x' = Move(Move(x, <<t[1]>>, sg), <<t[2]>>, sg)]_vars
Cover == Emit => LET h == hist'[Len(hist')] IN
    PrintT("@@" \o ToJson([n |-> h.n, s |-> h.s, sg |-> h.sg, t |-> h.t, en |-> x'.n, es |-> x'.s,
                            late |-> IF h.sg = -1 THEN LateMove(x, h.t).n ELSE x'.n]))
View == <<x, Len(hist)>>
=============================================================================
