------------------------------ MODULE MCSched ------------------------------
(* An instrument is set up and its schedule generated, for every combination of terms. *)
EXTENDS Sched, Json, TLC
CONSTANTS Effs, Lives, Lists, Fs, Gaps, Emit
EffQuick == {DayNo(2023, 1, 31), DayNo(2023, 8, 2), DayNo(2024, 2, 29), DayNo(2023, 12, 29)}
LivesQuick == {1, 20, 59, 182, 365, 366, 550}
GapsQuick == {<<0, 0>>, <<1, 0>>, <<2, 2>>}
ListsQuick == {<<"null">>, <<"kr_krx">>, <<"us_settlement", "kr_settlement">>}
EffBig == EffQuick \cup {DayNo(2023, 10, 31), DayNo(2024, 5, 31), DayNo(2024, 12, 30), DayNo(2025, 2, 28)}
LivesBig == {1, 7, 28, 30, 31, 59, 91, 182, 364, 365, 366, 731, 1096}
FsQuick == {"monthly", "quarterly", "semiannually", "annually"}
FsBig == Freqs \ {"daily"}
VARIABLES terms, sch
vars == <<terms, sch>>
NoSch == [ok |-> FALSE, rows |-> <<>>]
Init == /\ sch = NoSch
        /\ terms \in [fwd : BOOLEAN, eff : Effs, life : Lives, l : Lists, c : Convs, f : Fs, g : Gaps]
Eff == [n |-> terms.eff, s |-> 59400, o |-> 540]
Mat == [n |-> terms.eff + terms.life, s |-> 59400, o |-> 540]
Cs == [i \in 1..Len(terms.l) |-> NewCal(terms.l[i])]
Next == sch = NoSch /\ sch' = Build(terms.fwd, Eff, Mat, Cs, terms.c, terms.f, terms.g[1], terms.g[2]) /\ UNCHANGED terms
Spec == Init /\ [][Next]_vars
Good == sch # NoSch => Tiles(sch, Eff, Mat, Cs, terms.c)
Row(r) == <<r.fix.n, r.start.n, r.end.n, r.pay.n>>
Cover == Emit => PrintT("@@" \o ToJson([fwd |-> terms.fwd, eff |-> Eff, mat |-> Mat, kinds |-> terms.l, c |-> terms.c, f |-> terms.f,
             fg |-> terms.g[1], pg |-> terms.g[2], ok |-> sch'.ok, rows |-> [i \in 1..Len(sch'.rows) |-> Row(sch'.rows[i])]]))
=============================================================================
