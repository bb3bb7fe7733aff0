------------------------------- MODULE MCCash -------------------------------
(* Bonds and swaps are set up from their conventions; then time passes and on every day of interest their cash flows are
   asked for. *)
EXTENDS CashFlow, Json, TLC
CONSTANTS Kinds5, Lives, Fs, Cals, Dcs, Ixs, Gaps, Fwds, Emit
VARIABLES k, r, p, done
vars == <<k, r, p, done>>
Off == 540
Sec == 59400
I(n) == [n |-> n, s |-> Sec, o |-> Off]
EffDay == DayNo(2023, 11, 30)
Part(u, m) == [u |-> u, k |-> m]
(* fixings are published for these days (weekends too), also after the pricing day *)
Full == [n \in (EffDay - 60)..(EffDay + 1200) |-> TRUE]
Holes == [n \in (EffDay - 60)..(EffDay + 1200) |-> n % 3 # 0]
None == [n \in (EffDay - 60)..(EffDay + 1200) |-> FALSE]
Index(x) == CASE x = "term" -> [tenor |-> Part("M", 3), comp |-> Part("D", 0), spread |-> 0, has |-> Full]
              [] x = "termspread" -> [tenor |-> Part("D", 91), comp |-> Part("D", 0), spread |-> 12500, has |-> Full]
              [] x = "termholes" -> [tenor |-> Part("Y", 1), comp |-> Part("D", 0), spread |-> 0, has |-> None]
              [] x = "weekly" -> [tenor |-> Part("D", 1), comp |-> Part("W", 1), spread |-> 0, has |-> Full]
              [] x = "daily" -> [tenor |-> Part("D", 1), comp |-> Part("D", 1), spread |-> 0, has |-> Full]
              [] x = "holes" -> [tenor |-> Part("D", 1), comp |-> Part("D", 10), spread |-> -5000, has |-> Holes]
              [] x = "stretch" -> [tenor |-> Part("D", 1), comp |-> Part("M", 2), spread |-> 0, has |-> Holes]
              [] x = "monthly" -> [tenor |-> Part("M", 1), comp |-> Part("M", 1), spread |-> 3000, has |-> Holes]
Floats(kk) == kk \in {"frn", "frngiven", "irs", "crs"}
Terms == {[kind |-> kk, life |-> l, f |-> f, l |-> c, dc |-> d, ix |-> IF Floats(kk) THEN x ELSE "term", g |-> g, fwd |-> w] :
            kk \in Kinds5, l \in Lives, f \in Fs, c \in Cals, d \in Dcs, x \in Ixs, g \in Gaps, w \in Fwds}
Eff == I(EffDay)
Mat(q) == I(EffDay + q.life)
(* some bonds pay a given amount on some days; a bond may pay several on one day *)
Given(kk) == kk \in {"given", "frngiven", "twice"}
Cs(q) == [i \in 1..Len(q.l) |-> NewCal(q.l[i])]
Sch(q) == Build(q.fwd, Eff, Mat(q), Cs(q), "modfollowing", q.f, q.g[1], q.g[2])
Init == /\ k \in {q \in Terms : Sch(q).ok} /\ p = -1 /\ done = FALSE
        /\ r = LET b == Sch(k).rows IN
                IF k.kind \in {"fxswap", "fxfwd"} THEN <<>>
                ELSE IF k.kind # "twice" THEN b
                ELSE [i \in 1..(2 * Len(b)) |-> [b[(i + 1) \div 2] EXCEPT !.pay = IF i % 3 = 0 /\ (i + 3) \div 2 <= Len(b) THEN b[(i + 3) \div 2].pay ELSE @]]
IsBond == k.kind \in {"fixed", "strip", "frn", "given", "frngiven", "twice"}
Bond == [rows |-> r, given |-> [i \in 1..Len(r) |-> IF Given(k.kind) /\ (i % 2 = 1 \/ (k.kind = "twice" /\ i % 4 # 0)) THEN 700000 * i ELSE 0],
     rate |-> 450, ix |-> Index(k.ix), float |-> k.kind \in {"frn", "frngiven"}, strip |-> k.kind = "strip", mat |-> Mat(k), cs |-> Cs(k), dc |-> k.dc, fg |-> k.g[1]]
Swap == LET x == k.kind \in {"crs", "fxswap"}
            y == k.kind \in {"crs", "fxswap", "fxfwd"}
    IN [rows1 |-> r, rows2 |-> r, rate |-> 310, ix |-> [Index(k.ix) EXCEPT !.spread = 0], i1 |-> IF x THEN 1300 ELSE 0, i2 |-> IF x THEN 2 ELSE 0,
        l1 |-> IF y THEN 1280 ELSE 0, l2 |-> IF y THEN 3 ELSE 0, eff |-> Eff, mat |-> Mat(k), cs |-> Cs(k), dc1 |-> k.dc,
        dc2 |-> IF k.dc = "act365" THEN "act360" ELSE "act365", fg |-> k.g[1]]
(* the days of interest, and times of day around the fixing time *)
Days == {EffDay - 40, EffDay - 1, EffDay, EffDay + 1} \cup
        UNION {{r[i].fix.n, r[i].fix.n + 1, r[i].start.n + 17, r[i].pay.n - 1, r[i].pay.n, r[i].pay.n + 1} : i \in 1..Len(r)}
        \cup {EffDay + k.life, EffDay + k.life + 1}
Later(x) == {d \in Days : d > x}
Next == /\ ~done /\ UNCHANGED <<k, r>>
        /\ IF Later(p) = {} THEN done' = TRUE /\ UNCHANGED p
           ELSE p' = (CHOOSE d \in Later(p) : \A z \in Later(p) : d <= z) /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
P(d) == [n |-> d, s |-> IF d % 2 = 0 THEN Sec ELSE IF d % 3 = 0 THEN 0 ELSE 86399, o |-> Off]
(* the market may be older than the pricing day when no rate has to be made up *)
EvalAt(d) == IF IsBond /\ k.ix \notin {"termholes", "holes", "monthly"} /\ d % 5 < 2 THEN P(d - 7) ELSE P(d)
Answer(d) == IF IsBond THEN [bond |-> Group(BondFlows(Bond, P(d), EvalAt(d))), fix |-> {}, flo |-> {}]
             ELSE [bond |-> {}, fix |-> Group(FixedFlows(Swap, P(d))), flo |-> Group(FloatFlows(Swap, P(d), EvalAt(d)))]
CpsOf(fs) == {fs[i] : i \in 1..Len(fs)}
Laws == (p >= 0 /\ ~done) =>
    LET fs == IF IsBond THEN BondFlows(Bond, P(p), EvalAt(p)) ELSE FloatFlows(Swap, P(p), EvalAt(p)) IN
    /\ \A f \in CpsOf(fs) : f.m # 0 /\ k.ix # "termholes" => PubOnlyPast(f.cp, P(p))
    /\ IsBond => \A f \in CpsOf(fs) : f.m # 0 => \E i \in 1..Len(Bond.rows) : StepsTile(f.cp, k.dc, Bond.rows[i])
    \* what was known of the flows before anything was paid is what is still due now, and nothing else
    /\ IsBond /\ ~Floats(k.kind) => fs = Due(BondFlows(Bond, P(EffDay - 40), P(EffDay - 40)), P(p))
    /\ ~IsBond => FixedFlows(Swap, P(p)) = Due(FixedFlows(Swap, P(EffDay - 40)), P(p))
Row4(x) == <<x.fix.n, x.start.n, x.end.n, x.pay.n>>
Terms5 == [kind |-> k.kind, kinds |-> k.l, f |-> k.f, dc |-> k.dc, fg |-> k.g[1], pg |-> k.g[2], fwd |-> k.fwd, eff |-> Eff, mat |-> Mat(k),
           ix |-> [tenor |-> Index(k.ix).tenor, comp |-> Index(k.ix).comp, spread |-> Index(k.ix).spread,
                   pub |-> IF Index(k.ix).has = Full THEN "all" ELSE IF Index(k.ix).has = None THEN "none" ELSE "holes"],
           rows |-> [i \in 1..Len(r) |-> Row4(r[i])],
           given |-> IF IsBond THEN Bond.given ELSE <<>>]
Cover == (Emit /\ p' # p) => PrintT("@@" \o ToJson([t |-> Terms5, p |-> P(p'), e |-> [EvalAt(p') EXCEPT !.n = @], a |-> Answer(p')]))
GapsQuick == {<<0, 0>>, <<2, 1>>}
CalsQuick == {<<"kr_settlement">>}
CalsBig == {<<"kr_settlement">>, <<"us_sofr">>, <<"null">>, <<"us_settlement", "kr_settlement">>}
GapsBig == {<<0, 0>>, <<2, 1>>, <<1, 0>>, <<5, 2>>}
=============================================================================
