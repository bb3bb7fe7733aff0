----------------------------- MODULE MCHolCal ------------------------------
(* Calendars whose closed days are edited by hand, looked at over windows around a month end. *)
EXTENDS HolCal, Json, TLC
CONSTANTS Windows, Lists, Edits, MaxEdits, Emit
WinQuick == {DayNo(2023, 12, 28), DayNo(2024, 4, 29), DayNo(2022, 12, 30), DayNo(2024, 2, 7), DayNo(2021, 7, 1)}
WinBig == WinQuick \cup {DayNo(y, m, 27) : y \in {2019, 2023, 2024}, m \in {3, 5, 6, 9, 11, 12}}
ListsQuick == {<<k>> : k \in Kinds} \cup {<<"null", "us_nyse">>, <<"kr_krx", "us_settlement">>, <<"us_fed", "kr_settlement">>, <<"kr_settlement", "kr_krx">>}
ListsBig == ListsQuick \cup {<<k, j>> : k \in Kinds, j \in Kinds}
EditsQuick == {0, 1, 5}
EditsBig == {0, 1, 2, 5, 6}
VARIABLES cs, w, hist
vars == <<cs, w, hist>>
Init == w \in Windows /\ hist = <<>> /\ cs \in {[i \in 1..Len(l) |-> NewCal(l[i])] : l \in Lists}
Next == /\ Len(hist) < MaxEdits /\ UNCHANGED w
        /\ \E i \in 1..Len(cs), d \in Edits, op \in {"add", "remove"} :
             /\ cs' = [cs EXCEPT ![i] = IF op = "add" THEN AddHoliday(@, w + d) ELSE RemoveHoliday(@, w + d)]
             /\ hist' = Append(hist, [i |-> i, n |-> w + d, op |-> op])
Spec == Init /\ [][Next]_vars
LookSeq == [j \in 1..24 |-> LET q == j - 1 IN [n |-> w + (q \div 3), s |-> IF (q + q \div 3) % 2 = 0 THEN 0 ELSE 61200,
                                                o |-> <<540, 0, -300>>[(q % 3) + 1]]]
Laws == \A j \in 1..24 : AdjustLaws(cs, LookSeq[j])
ConvSeq == <<"unadjusted", "following", "preceding", "modfollowing", "modpreceding">>
Cover == Emit =>
    PrintT("@@" \o ToJson([kinds |-> [i \in 1..Len(cs) |-> cs[i].kind], h |-> hist',
        t |-> [j \in 1..24 |-> LET t == LookSeq[j] IN
               [n |-> t.n, s |-> t.s, o |-> t.o, closed |-> Closed(cs', t), adj |-> [c \in 1..5 |-> Adjust(cs', t, ConvSeq[c]).n]]]]))
View == <<cs, w, Len(hist)>>
=============================================================================
