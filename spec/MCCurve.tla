------------------------------- MODULE MCCurve -------------------------------
(* A zero curve is bumped over windows of time or of dates, the date moves, and it is read. *)
EXTENDS Curve, Json, TLC
CONSTANTS Inputs, Days, Lows, Highs, Depth, Emit
VARIABLES c, h, v, e
vars == <<c, h, v, e>>
LowsQ == {-1, 1, 2, 3, 10, 23, 24, 57}
HighsQ == {-1, 1, 3, 4, 10, 11, 24, 58}
LowsB == {-1} \cup 1..58
HighsB == {-1} \cup 1..58
Sec == 57600
I(n) == [n |-> n, s |-> Sec]
DayOf(k) == CASE k = 1 -> DayNo(2023, 1, 2) [] k = 2 -> DayNo(2024, 2, 29) [] k = 3 -> DayNo(2023, 11, 30)
In(x) == CASE x = 1 -> [t |-> <<500000>>, r |-> <<30000>>]
           [] x = 2 -> [t |-> <<250000, 2000000>>, r |-> <<20000, 60000>>]
           [] x = 3 -> [t |-> <<2740, 100000, 1000000, 7300000, 40000000>>, r |-> <<35000, -5000, 41000, 22000, 15000>>]
           [] x = 4 -> [t |-> <<0, 13000000, 60000000>>, r |-> <<-2000, 80000, 80000>>]
(* pillar times, and from where dates are counted one move later *)
Ts == [k \in 1..3 |-> TimesOf(I(DayOf(k)), Pillars)]
Rates == [x \in 1..4 |-> [k \in 1..3 |-> Interpolated(In(x).t, In(x).r, Ts[k])]]
Init == /\ c \in [x : Inputs, k : Days] /\ h = <<>> /\ e = DayOf(c.k) /\ v = Rates[c.x][c.k]
ByTime == {[op |-> "time", lo |-> lo, hi |-> hi, ok |-> WinOk(lo, hi), a |-> 700] : lo \in Lows, hi \in Highs}
Small == {[op |-> "time", lo |-> -1, hi |-> -1, ok |-> TRUE, a |-> -700], [op |-> "time", lo |-> 12, hi |-> 24, ok |-> TRUE, a |-> -1100], [op |-> "time", lo |-> 3, hi |-> 15, ok |-> TRUE, a |-> 700]}
(* windows by date: on a pillar, or well between two *)
Dates == {{}} \cup {{d} : d \in {DayOf(c.k), DayOf(c.k) + 7, DayOf(c.k) + 45, Move(I(DayOf(c.k)), T("Y", 2), 1).n, DayOf(c.k) + 9000}}
Tm(n) == Time(I(e), I(n))
The(D) == CHOOSE d \in D : TRUE
Pl(D) == IF D = {} THEN -1 ELSE PlaceOf(Ts[c.k], Tm(CHOOSE d \in D : TRUE))
Ok(D) == D = {} \/ (LET d == CHOOSE x \in D : TRUE IN Clear(Ts[c.k], Tm(d)))
ByDate == {[op |-> "date", lo |-> Pl(x), hi |-> Pl(y), dlo |-> x, dhi |-> y, ok |-> x = {} \/ y = {} \/ Tm(The(x)) <= Tm(The(y)), a |-> 1300] : x \in {D \in Dates : Ok(D)}, y \in {D \in Dates : Ok(D)}}
Jump == {[op |-> "move", to |-> I(DayOf(c.k) + d)] : d \in {3, 40, -10}}
Ops == IF h = <<>> THEN ByTime \cup ByDate \cup Jump \cup Small ELSE Small \cup (IF h[Len(h)].op = "move" THEN ByDate ELSE {}) \cup Jump
Next == /\ Len(h) < Depth /\ UNCHANGED c
        /\ \E o \in Ops : /\ h' = Append(h, o)
                          /\ e' = IF o.op = "move" THEN o.to.n ELSE e
                          /\ v' = IF o.op = "move" \/ ~o.ok THEN v ELSE Bump(v, o.lo, o.hi, o.a)
Spec == Init /\ [][Next]_vars
Wins == {<<-1, -1>>, <<-1, 9>>, <<9, 30>>, <<9, 31>>, <<30, -1>>, <<8, 8>>}
Laws == Len(h) <= 1 =>
    /\ \A x \in Wins : Bump(Bump(v, x[1], x[2], 900), x[1], x[2], -900) = v
    /\ \A x \in Wins, y \in Wins : Bump(Bump(v, x[1], x[2], 900), y[1], y[2], 50) = Bump(Bump(v, y[1], y[2], 50), x[1], x[2], 900)
    /\ Bump(Bump(Bump(v, -1, 9, 900), 9, 30, 900), 30, -1, 900) = Bump(v, -1, -1, 900)
    /\ Bump(v, -1, -1, 900) = [i \in 1..29 |-> v[i] + 900]
    /\ Rates[c.x][c.k][29] = In(c.x).r[Len(In(c.x).r)]
Asked == {e' - 1, e', e' + 1, e' + 20, e' + 100, e' + 365, e' + 1000, e' + 5000, e' + 20000}
Read(d) == LET t == Time(I(e'), I(d)) IN [n |-> d, t |-> t, p |-> Place(Ts[c.k], t)]
Cover == Emit => PrintT("@@" \o ToJson([e |-> I(DayOf(c.k)), in |-> In(c.x), ts |-> Ts[c.k], h |-> h', now |-> I(e'), v |-> v',
             ok |-> [i \in 1..Len(h') |-> h'[i].op = "move" \/ h'[i].ok],
             q |-> {Read(d) : d \in Asked}]))
=============================================================================
