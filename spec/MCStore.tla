------------------------------ MODULE MCStore -------------------------------
(* Every short history of editing, writing and reading back. *)
EXTENDS Store, Json, TLC
CONSTANTS MaxOps, MaxShelf, Emit
VARIABLES start, hist
W == DayNo(2024, 2, 7)
ASSUME W > 0
Pay == Put(Put(NewSheet(10, "KRW"), "vegam", "A", 4), "rhos", "B", -3)
Starts == {Cal(<<k>>) : k \in Kinds} \cup {Cal(<<"kr_krx", "us_nyse">>), Cal(<<"us_fed", "null", "kr_settlement">>)}
          \cup {EvalDate(W), EvalDate(DayNo(2000, 2, 29)), ASheet(NewSheet(1, "USD")), ASheet(Pay), Pair("USD", "KRW"), Pair("EUR", "JPY"), Pair("NIL", "KRW")}
Days == {W, W + 1, W + 5}
Edits == {[op |-> op, n |-> n, c |-> ""] : op \in {"add", "remove"}, n \in Days} \cup {[op |-> "move", n |-> n, c |-> ""] : n \in {1, -3, 366}}
         \cup {[op |-> "put", n |-> 5, c |-> c] : c \in Names} \cup {[op |-> "npv", n |-> 6, c |-> ""], [op |-> "value", n |-> 0, c |-> ""], [op |-> "theta", n |-> -2, c |-> ""],
               [op |-> "cash", n |-> 8, c |-> ""], [op |-> "convert", n |-> 2, c |-> "EUR"], [op |-> "swap", n |-> 0, c |-> ""]}
Init == hist = <<>> /\ start \in Starts /\ StoreInit(start)
Log(k, i, e) == hist' = Append(hist, [k |-> k, i |-> i, e |-> e]) /\ UNCHANGED start
NoEdit == [op |-> "", n |-> 0, c |-> ""]
Next ==
    /\ Len(hist) < MaxOps
    /\ \/ \E i \in 1..Len(shelf), e \in Edits : Edit(i, e) /\ Log("edit", i, e)
       \/ \E i \in 1..Len(shelf) : Len(drawer) < 2 /\ Write(i) /\ Log("write", i, NoEdit)
       \/ \E f \in 1..Len(drawer) : Len(shelf) < MaxShelf /\ Read(f) /\ Log("read", f, NoEdit)
Spec == Init /\ [][Next]_<<start, shelf, drawer, hist>>
(* what is read is what was written; reading twice gives the same *)
Laws == /\ \A f \in 1..Len(drawer) : drawer[f].t = start.t /\ Kept(drawer[f]) = drawer[f]
        /\ Len(drawer) > 0 => \A f \in 1..Len(drawer) : ENABLED Read(f)
(* what can be seen of an object *)
Look(j) == LET q == j - 1 IN [n |-> W - 1 + q, s |-> IF q % 2 = 0 THEN 0 ELSE 61200, o |-> <<540, 0, -300>>[(q % 3) + 1]]
Seen(o) == CASE o.t = "cal" -> [t |-> "cal", v |-> [j \in 1..9 |-> [at |-> Look(j), closed |-> Closed(o.v, Look(j)), next |-> Adjust(o.v, Look(j), "following").n]]]
             [] o.t = "date" -> [t |-> "date", v |-> o.v]
             [] o.t = "sheet" -> [t |-> "sheet", v |-> o.v]
             [] o.t = "pair" -> [t |-> "pair", v |-> [a |-> o.v[1], b |-> o.v[2], text |-> o.v[1] \o "_" \o o.v[2]]]
Cover == Emit => PrintT("@@" \o ToJson([store |-> IF start.t = "cal" THEN [t |-> "cal", v |-> [i \in 1..Len(start.v) |-> start.v[i].kind]] ELSE start,
                                        h |-> hist', a |-> [i \in 1..Len(shelf') |-> Seen(shelf'[i])]]))
View == <<start, shelf, drawer, Len(hist)>>
=============================================================================
