------------------------------ MODULE MCMarket ------------------------------
(* Histories of date moves (absolute and by tenor), dividend bumps, new quotes and late attachments. *)
EXTENDS Market, Json, TLC
CONSTANTS Worlds, Depth, Rich, Emit
VARIABLES w, h, m
vars == <<w, h, m>>
D0 == DayNo(2024, 2, 20)
At(d, s) == [n |-> D0 + d, s |-> s]
Noon == 57600
Div(l, a, e) == [ex |-> l, a |-> a, att |-> TRUE, asof |-> e]
Price(div, q, at) == [div |-> div, q |-> q, at |-> at, f |-> NoF, att |-> TRUE]
(* the dividends and the start of world w: dates before, between and after the ex-dates; a dividend may lie wholly in the past *)
Start(x) == CASE x \in {1, 4} -> At(0, Noon) [] x = 2 -> At(10, 0) [] x = 3 -> At(30, Noon)
D1(x) == Div(<<At(1, 0), At(8, 0), At(10, 0), At(30, 0)>>, <<2, 4, 1, 8>>, Start(x))
D2(x) == Div(<<At(9, Noon)>>, <<4>>, Start(x))
World(x) == [e |-> Start(x), ds |-> <<D1(x), D2(x)>>,
    ps |-> <<Price(1, 100, Start(x)), Price(2, 7, At(-3, 0)), Price(0, 55, Start(x)), Price(1, 20, At(15, 0))>>]
First(x) == IF x = 4 THEN [World(x) EXCEPT !.ds[1].att = FALSE, !.ps[1].att = FALSE, !.ps[4].att = FALSE] ELSE World(x)
Init == /\ w \in Worlds /\ h = <<>>
        /\ m = First(w)
P1(u, k) == [u |-> u, k |-> k]
Tenors == {<<P1("D", 1)>>, <<P1("M", 1)>>, <<P1("D", 9), P1("h", 8)>>, <<P1("sec", 1)>>}
Targets == {At(0, Noon), At(1, 0), At(7, Noon), At(8, 0), At(9, Noon), At(10, 0), At(29, Noon), At(31, 0)} \cup
           (IF Rich THEN {At(-40, 0), At(1, 1), At(0, 86399), At(8, Noon), At(9, 0), At(30, 0), At(400, 0)} ELSE {})
Windows == {<<NoDay, NoDay>>, <<D0 + 1, D0 + 10>>, <<NoDay, D0 + 8>>, <<D0 + 9, NoDay>>, <<D0 + 8, D0 + 8>>}
Ops == {[op |-> "set", t |-> t] : t \in Targets} \cup {[op |-> "add", ps |-> p] : p \in Tenors} \cup {[op |-> "sub", ps |-> p] : p \in Tenors}
       \cup {[op |-> "bump", i |-> 1, lo |-> x[1], hi |-> x[2], a |-> a] : x \in Windows, a \in {1, -1}}
       \cup {[op |-> "bump", i |-> 2, lo |-> NoDay, hi |-> NoDay, a |-> 2], [op |-> "quote", i |-> 1, q |-> 300]}
       \cup (IF w = 4 THEN {[op |-> "join", what |-> "price", i |-> 1], [op |-> "join", what |-> "dividend", i |-> 1]} ELSE {})
Next == Len(h) < Depth /\ UNCHANGED w /\ \E o \in Ops : h' = Append(h, o) /\ m' = Does(m, o)
Spec == Init /\ [][Next]_vars
Has(x) == \E i \in 1..Len(h) : h[i].op \in x
Moved == Has({"set", "add", "sub"})
(* between bumps and new quotes the path does not matter: a price depends on where it started and where the date is now *)
PathFree == w # 4 /\ ~Has({"bump", "quote"}) => \A i \in 1..Len(m.ps) :
    LET p == m.ps[i]  p0 == World(w).ps[i] IN
    IF p.div = 0 \/ ~Moved THEN p = p0
    ELSE /\ p.at = m.e
         /\ p.f = IF Before(p0.at, m.e) THEN Factors(m.ds[p.div], In(m.ds[p.div], p0.at, m.e))
                  ELSE Minus(NoF, Factors(m.ds[p.div], In(m.ds[p.div], m.e, p0.at)))
(* what has been taken off the price and what is still to be taken off make all that goes ex after the start *)
Forward == w # 4 /\ Moved /\ ~Has({"bump", "quote"}) => \A i \in 1..Len(m.ps) :
    LET p == m.ps[i]  p0 == World(w).ps[i] IN
    p.div # 0 /\ AtMost(p0.at, m.e) =>
       Plus(p.f, Ratio(m.ds[p.div], D0 + 1000)) = Factors(m.ds[p.div], {k \in 1..Len(m.ds[p.div].ex) : Before(p0.at, m.ds[p.div].ex[k])})
(* a bump and its opposite change nothing *)
Undone == \A j \in 1..2 : \A x \in Windows : Bumps(Bumps(m, j, x[1], x[2], 1), j, x[1], x[2], -1).ds[j].a = m.ds[j].a
Seen == Moved => \A j \in 1..2 : m.ds[j].att /\ (w # 4 \/ j = 2) => m.ds[j].asof = m.e
Laws == PathFree /\ Forward /\ Undone /\ Seen
Bag(f) == {[k |-> k, x |-> f[k]] : k \in {j \in Ks : f[j] # 0}}
Days == <<-50, 0, 1, 7, 8, 9, 10, 11, 29, 30, 31, 500>>
Show(x) == [e |-> x.e, ps |-> [i \in 1..Len(x.ps) |-> [q |-> x.ps[i].q, at |-> x.ps[i].at, f |-> Bag(x.ps[i].f)]],
            ds |-> [j \in 1..Len(x.ds) |-> [a |-> x.ds[j].a, r |-> [i \in 1..Len(Days) |-> [n |-> D0 + Days[i], f |-> Bag(Ratio(x.ds[j], D0 + Days[i]))]]]]]
Brief(x) == [e |-> x.e, ps |-> [i \in 1..Len(x.ps) |-> [div |-> x.ps[i].div, q |-> x.ps[i].q, at |-> x.ps[i].at, att |-> x.ps[i].att]],
             ds |-> [j \in 1..Len(x.ds) |-> [ex |-> x.ds[j].ex, a |-> x.ds[j].a, att |-> x.ds[j].att]]]
Cover == Emit => PrintT("@@" \o ToJson([m0 |-> Brief(First(w)), h |-> h', want |-> Show(m'),
                                         ok |-> [i \in 1..Len(h') |-> h'[i].op # "bump" \/ BumpOk(h'[i].lo, h'[i].hi)]]))
=============================================================================
