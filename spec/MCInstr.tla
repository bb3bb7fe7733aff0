------------------------------- MODULE MCInstr -------------------------------
(* Every kind of instrument with parts that can all be told apart. *)
EXTENDS Instr, Json, TLC
CONSTANTS Ccys, Codes, Parts, Ratings
VARIABLE x
P(k) == IF k = 1 THEN [unit |-> "10", price |-> "103", m |-> "d400", i |-> "d-30", p |-> "d7", strike |-> "250", ix |-> "RI", f |-> "3M", nb |-> "2", settle |-> "Settled"]
        ELSE IF k = 2 THEN [unit |-> "250000", price |-> "1355", m |-> "d40", i |-> "d-3", p |-> "none", strike |-> "90", ix |-> "CD", f |-> "1Y", nb |-> "0", settle |-> "NotSettled"]
        ELSE [unit |-> "1", price |-> "-4", m |-> "d2", i |-> "d0", p |-> "d1", strike |-> "1", ix |-> "SOFR", f |-> "1M", nb |-> "1", settle |-> "Settled"]
Init == \E t \in Types, c \in Ccys, u \in Ccys, code \in Codes, k \in Parts, r \in Ratings :
            LET p == P(k) IN
            /\ x = [t |-> t, ccy |-> c, und |-> u, code |-> code[1], s |-> code[2], rating |-> r[1], issuer |-> r[2], rank |-> r[3],
                    unit |-> p.unit, price |-> p.price, m |-> p.m, i |-> p.i, p |-> p.p, strike |-> p.strike, ix |-> p.ix, f |-> p.f, nb |-> p.nb, settle |-> p.settle]
            /\ Possible(x)
            /\ t \in Swaps => (t = "FxSpot" <=> x.m = "d2")
            /\ t \notin Bonds => r = CHOOSE z \in Ratings : TRUE
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Refused(y) == {a \in Attributes : Answer(y, a) = "refused"}
(* two currencies show as a pair, wherever they matter for the price; kinds can be told apart by what they answer *)
Laws ==
    /\ x.und # x.ccy /\ x.t \in Swaps \cup {"FxFutures"} => Answer(x, "fxcodes") # ""
    /\ x.und # x.ccy /\ x.t \in Options => Answer(x, "quanto") # ""
    /\ Answer(x, "volcodes") # "" => Answer(x, "volcodes") = Answer(x, "und")
    /\ (Answer(x, "fixedflows") = "refused") = (Answer(x, "swaptype") = "refused")
    /\ x.t \in Legs => Answer(x, "index") # "none"
    /\ Refused(x) # {} /\ Refused(x) # Attributes
Cover == PrintT("@@" \o ToJson([x |-> x, want |-> Answers(x)]))
CodesQ == {<<"A1", "U9">>, <<"U9", "A1">>}
RatingsQ == {<<"None", "Government", "Senior">>, <<"AAA", "Financial", "Subordinated">>, <<"BBBm", "CorporateUnguaranteed", "Junior">>}
RatingsB == RatingsQ \cup {<<"AAp", "CorporateGuaranteed", "Mezzanine">>, <<"D", "Public", "Equity">>, <<"BBp", "Undefined", "None">>, <<"Ap", "None", "Undefined">>}
=============================================================================
