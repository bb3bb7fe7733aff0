------------------------------ MODULE MCSeries ------------------------------
(* Every short history of a series of daily values, the series of prices made from it, and what both answer around closes and closed days. *)
EXTENDS Series, Json, TLC
CONSTANTS MaxOps, Windows, Markets, Emit
VARIABLES m0, w, data, price, hist
WinQ == {DayNo(2024, 2, 7), DayNo(2023, 12, 29)}
WinB == {DayNo(2024, 2, 7), DayNo(2023, 12, 29), DayNo(2022, 9, 7), DayNo(2024, 6, 17)}
ASSUME \A x \in WinB : x > 0
Mk(kind, off, close) == [kind |-> kind, off |-> off, close |-> close]
MarketsQ == {Mk("kr_krx", 540, 56400), Mk("us_nyse", -300, 57600), Mk("null", 0, 0), Mk("us_fed", -300, 86399)}
MarketsB == MarketsQ \cup {Mk("kr_settlement", 540, 1), Mk("us_sofr", 0, 43200), Mk("us_settlement", -330, 36000), Mk("kr_krx", 0, 23400)}
Days == w..(w + 8)
Put == {0, 1, 5, 6}
None == <<>>
Init == /\ m0 \in Markets /\ w \in Windows /\ hist = <<>>
        /\ data = [NewSeries(m0.kind, m0.off, m0.close, w..(w + 8)) EXCEPT !.val[w] = <<10>>, !.val[w + 2] = <<12>>, !.val[w + 4] = <<14>>, !.val[w + 7] = <<17>>]
        /\ price = None
Log(e) == hist' = Append(hist, e) /\ UNCHANGED <<m0, w>>
Next ==
    /\ Len(hist) < MaxOps
    /\ \/ \E d \in Put, v \in {7, -3} : data' = PutDay(data, w + d, v) /\ UNCHANGED price /\ Log([op |-> "put", n |-> w + d, v |-> v])
       \/ \E d \in Put : data' = ChangeDay(data, w + d, 8) /\ UNCHANGED price /\ Log([op |-> "change", n |-> w + d, v |-> 8])
       \/ price' = data /\ UNCHANGED data /\ Log([op |-> "make", n |-> 0, v |-> 0])
       \/ price # None /\ \E d \in Put : price' = ChangeDay(price, w + d, 9) /\ UNCHANGED data /\ Log([op |-> "move", n |-> w + d, v |-> 9])
       \/ price # None /\ price' = ReplaceAll(price, [n \in {w + 1, w + 3, w + 5} |-> n - w]) /\ UNCHANGED data /\ Log([op |-> "replace", n |-> w, v |-> 0])
Spec == Init /\ [][Next]_<<m0, w, data, price, hist>>
LookAt(j) == LET q == j - 1  off == <<540, 0, -300>>[(q % 3) + 1]
                 at == <<0, m0.close, m0.close, 86399>>[(q % 4) + 1]
                 x == at + 60 * (off - m0.off)
             IN [n |-> w - 1 + (q \div 4) + (x \div 86400), s |-> x % 86400, f |-> IF q % 4 = 2 THEN 1 ELSE 0, o |-> off]
Laws == price = None \/ \A j \in 1..39 : SeriesLaws(price, LookAt(j), LookAt(j + 1))
View == <<m0, w, data, price, Len(hist)>>
Answers(p, L) == [j \in 1..Len(L) |-> [t |-> L[j], v |-> Asked(p, L[j])]]
Cover == Emit => PrintT("@@" \o ToJson([market |-> m0, start |-> <<[n |-> w, v |-> 10], [n |-> w + 2, v |-> 12], [n |-> w + 4, v |-> 14], [n |-> w + 7, v |-> 17]>>,
    w |-> w, h |-> hist', data |-> InOrder(data'), made |-> price' # None,
    price |-> IF price' = None THEN <<>> ELSE InOrder(price'), looks |-> IF price' = None THEN <<>> ELSE Answers(price', [j \in 1..40 |-> LookAt(j)])]))
=============================================================================
