------------------------------ MODULE MCEngine ------------------------------
(* Portfolios of every kind of instrument are handed to engines: each alone, in pairs and all together; split by all kinds of
   categories; with one measure or all; on full market data and with every single datum missing.  A hash of a running number
   draws further combinations (Count of them from Seed on). *)
EXTENDS Engine, Json, TLC, SequencesExt, FiniteSetsExt
CONSTANTS Fams, Seed, Count, Emit
VARIABLES t, done
vars == <<t, done>>
D1 == 24
EPool == <<
    Fut("FUT1", "S1", "KRW", "KRW", 80 * D1), Fut("FUT2", "S2", "USD", "USD", 300 * D1), Fut("FUTQ", "S2", "USD", "KRW", 200 * D1 + 3),
    Fut("FUTN", "S1", "KRW", "KRW", 13), Fut("FUT3", "S1", "KRW", "KRW", 2 * D1 + 5),
    Opt("CALL1", "VanillaCall", "S1", "KRW", "KRW", FALSE, 80 * D1), Opt("PUT1", "VanillaPut", "S1", "KRW", "KRW", FALSE, 400 * D1),
    Opt("CALLQ", "VanillaCall", "S2", "USD", "KRW", FALSE, 200 * D1), Opt("PUT2", "VanillaPut", "S2", "USD", "USD", FALSE, 300 * D1),
    Opt("CALLN", "VanillaCall", "S1", "KRW", "KRW", FALSE, 2 * D1),
    Bd("BOND1", "GOV/Government/None/KRW", "KRW", "", 500 * D1), Bd("BOND2", "GOV/Government/None/USD", "USD", "", 800 * D1),
    Bd("BONDN", "BNK/Financial/AA/KRW", "KRW", "", 3 * D1), Bd("FRN1", "BNK/Financial/AA/KRW", "KRW", "CD", 700 * D1),
    Sw("IRS1", "IRS", "KRW", "KRW", "CD", 1000 * D1), Sw("IRS2", "IRS", "USD", "USD", "SOFR", 400 * D1),
    Sw("CRS1", "CRS", "KRW", "USD", "SOFR", 900 * D1), Sw("CRS2", "CRS", "USD", "EUR", "SOFR", 300 * D1),
    Sw("FXS1", "FxSwap", "KRW", "USD", "", 150 * D1), Sw("FXF1", "FxForward", "USD", "KRW", "", 100 * D1), Sw("FXSP", "FxSpot", "KRW", "USD", "", 2 * D1),
    [B EXCEPT !.code = "FXFU", !.type = "FxFutures", !.undccy = "USD", !.fx = <<"USDKRW">>, !.mat = 100 * D1],
    [B EXCEPT !.code = "S1", !.type = "Stock", !.und = <<"S1">>], [B EXCEPT !.code = "S2", !.type = "Stock", !.ccy = "USD", !.und = <<"S2">>],
    [B EXCEPT !.code = "USD", !.type = "Cash", !.ccy = "USD"],
    (* what cannot be priced: daily settled options have no discount curve, bond futures no pricer that works, the last is over *)
    Opt("PUTS", "VanillaPut", "S1", "KRW", "KRW", TRUE, 100 * D1), [B EXCEPT !.code = "KTBF1", !.type = "KTBF", !.tags = <<"KTB10">>, !.mat = 200 * D1],
    Fut("FUTO", "S1", "KRW", "KRW", -1), Bd("BONDX", "XXX/Financial/BBB/KRW", "KRW", "", 300 * D1) >>
Good == 25
EKeys == <<<<"coll", "S1">>, <<"coll", "S2">>, <<"borrow", "S1">>, <<"borrow", "S2">>, <<"borrow", "KTB10">>,
          <<"bond", "GOV/Government/None/KRW">>, <<"bond", "GOV/Government/None/USD">>, <<"bond", "BNK/Financial/AA/KRW">>,
          <<"idx", "CD">>, <<"idx", "SOFR">>, <<"crs", "KRW">>, <<"crs", "USD">>, <<"crs", "EUR">>, <<"fund", "KRW">>, <<"fund", "USD">>>>
Nm == <<"C1", "C2", "S1", "S2", "C5", "C6", "C7", "C8", "C9", "C10", "C11", "C12", "C13", "C14", "C15">>
Home == <<"C1", "C2", "S1", "S2", "C5", "C1", "C2", "C3", "C4", "C5", "C6", "C7", "C8", "C1", "C2">>
Twist == <<"C1", "C2", "S2", "C2", "C1", "C2", "C2", "C3", "C3", "C1", "C3", "C1", "C2", "C3", "C1">>
TabOf(m, lost) == [k \in {EKeys[i] : i \in 1..Len(EKeys)} \ lost |->
    LET i == CHOOSE j \in 1..Len(EKeys) : EKeys[j] = k IN IF m = 1 THEN Nm[i] ELSE IF m = 2 THEN Home[i] ELSE Twist[i]]
FxSets == << [USDKRW |-> <<1300, 1>>, EURKRW |-> <<1400, 1>>], [KRWUSD |-> <<1, 1250>>, USDKRW |-> <<1250, 1>>, EURUSD |-> <<11, 10>>], 
             [KRWUSD |-> <<1, 1200>>, USDEUR |-> <<9, 10>>], [USDKRW |-> <<1300, 1>>] >>
Data(f, gone) ==
    LET w(k, S) == {x \in S : <<k, x>> \notin gone} IN
    [fx |-> FxSets[f], stock |-> w("stock", {"S1", "S2"}), curve |-> w("curve", Range(Nm) \cup {"S1", "S2"} \cup {"C3", "C4"}), div |-> w("div", {"S1", "S2"}),
     cvol |-> w("cvol", {"S2"}), svol |-> w("svol", {"S1", "S2"}), fxvol |-> w("fxvol", {"USDKRW"}), corr |-> w("corr", {<<"S2", "USDKRW">>}), fix |-> w("fix", {"CD", "SOFR"})]
Gone == {<<"stock", "S1">>, <<"stock", "S2">>, <<"div", "S1">>, <<"div", "S2">>, <<"cvol", "S2">>, <<"svol", "S1">>, <<"svol", "S2">>,
         <<"fxvol", "USDKRW">>, <<"corr", <<"S2", "USDKRW">>>>, <<"fix", "CD">>, <<"fix", "SOFR">>, <<"curve", "S1">>, <<"curve", "S2">>} \cup {<<"curve", Nm[i]>> : i \in 1..Len(Nm)}
-----------------------------------------------------------------------------
Off == [npv |-> FALSE, fx |-> FALSE, delta |-> FALSE, theta |-> FALSE, vega |-> FALSE, rho |-> FALSE, div |-> FALSE, vs |-> FALSE, rs |-> FALSE, ds |-> FALSE, vm |-> FALSE]
Flag == <<"npv", "fx", "delta", "theta", "vega", "rho", "div", "vs", "rs", "ds", "vm">>
Flags(S) == [f \in DOMAIN Off |-> f \in S]
Every == Range(Flag)
(* sizes of bumps (spot in 1/10000, others in ppm), horizons and grids *)
Sizes == << [day |-> 1, r |-> 100, vb |-> 10000, vsb |-> 10000, rb |-> 1000, db |-> 100, rt |-> <<"3M", "1Y", "3Y">>, vt |-> <<"3M", "1Y">>, dt |-> <<"1M", "6M", "1Y">>, xs |-> <<800000, 1000000, 1200000>>],
            [day |-> 3, r |-> 300, vb |-> 20000, vsb |-> 5000, rb |-> 10000, db |-> 5000, rt |-> <<"1M", "6M", "2Y", "30Y">>, vt |-> <<"2M", "6M", "9M", "2Y">>, dt |-> <<"3M", "2Y">>, xs |-> <<900000, 1100000>>],
            [day |-> 20, r |-> 50, vb |-> 5000, vsb |-> 20000, rb |-> 5000, db |-> 10000, rt |-> <<"7M", "2Y">>, vt |-> <<"1M", "3M", "1Y6M">>, dt |-> <<"2M">>, xs |-> <<600000, 950000, 1050000, 1500000>>] >>
Cfg(k, fl, st) == [f \in DOMAIN Off \cup DOMAIN Sizes[1] \cup {"stick"} |-> IF f = "stick" THEN st ELSE IF f \in DOMAIN Off THEN f \in fl ELSE Sizes[k][f]]
AnyCat == Cat({}, {}, AnyList)
Futs == {"Futures", "FxFutures"}  Opts == {"VanillaCall", "VanillaPut"}
Splits == << <<AnyCat>>, <<Cat({}, {"KRW"}, AnyList), Cat({}, {"USD"}, AnyList)>>,
    <<Cat(Futs, {}, AnyList), Cat(Opts, {}, AnyList), Cat(Bonds, {}, AnyList), Cat(Swaps, {}, AnyList), Cat({"Stock"}, {}, AnyList), Cat({"Cash", "KTBF"}, {}, AnyList)>>,
    <<Cat({}, {}, <<"S1">>), AnyCat>>, <<Cat({}, {"USD"}, <<"S2">>), Cat(Opts, {}, <<"S1">>), Cat({"IRS", "Bond"}, {"KRW"}, AnyList), AnyCat, AnyCat>>,
    <<Cat(Opts \cup {"Stock"}, {}, AnyList), Cat({}, {}, <<"S1">>), Cat({}, {}, <<>>)>>, <<Cat({}, {"KRW"}, AnyList)>>, <<Cat({"IRS"}, {}, <<"S1">>), Cat({}, {}, <<"S1", "S2">>)>>, <<>>,
    <<Cat({}, {}, <<"S2">>), Cat({}, {}, <<"S1">>)>> >>
(* two evaluation dates, one in a leap year; c: all the parameters of a test *)
Year(e) == IF e = 1 THEN 365 ELSE 366
T(e, s, fl, st, m, lost, f, gone, sp, pp) == [e |-> e, s |-> s, fl |-> fl, st |-> st, m |-> m, lost |-> lost, f |-> f, gone |-> gone, sp |-> sp, p |-> pp]
Plain(pp, fl, sp) == T(1, 1, fl, "money", 2, {}, 1, {}, sp, pp)
Whole == [i \in 1..Good |-> i]

(* drawing *)
Mix(x) == ((x % 46337) * 41 + x \div 7) % 46337
H(k, salt, n) == (Mix(Mix(k * 79 + salt * 4733 + 1237) + salt * 311) \div 5) % n
Draw(k) ==
    LET n == 1 + H(k, 1, 6)
        pick == {1 + H(k, 10 + j, IF H(k, 2, 5) = 0 THEN Len(EPool) ELSE Good) : j \in 1..n}
        fl == IF H(k, 3, 3) = 0 THEN Every ELSE {"npv"} \cup {Flag[j] : j \in {q \in 2..11 : H(k, 30 + q, 2) = 0}} IN
    T(1 + H(k, 4, 2), 1 + H(k, 5, 3), fl, IF H(k, 6, 2) = 0 THEN "money" ELSE "strike", 1 + H(k, 7, 3),
      IF H(k, 8, 8) = 0 THEN {EKeys[1 + H(k, 9, Len(EKeys))]} ELSE {}, 1 + H(k, 60, 3),
      IF H(k, 61, 8) = 0 THEN {CHOOSE g \in Gone : TRUE} \cup {<<"div", "S1">>} ELSE IF H(k, 61, 8) = 1 THEN {<<"div", "S2">>, <<"cvol", "S2">>} ELSE {},
      IF H(k, 62, 5) = 0 THEN 1 + H(k, 63, Len(Splits)) ELSE 1 + H(k, 63, 6), SetToSortSeq(pick, <))
Singles == {T(e, 1, Every, "money", m, {}, 1, {}, 1, <<i>>) : e \in {1}, m \in {1}, i \in 1..Len(EPool)}
    \cup {T(2, 3, Every, "strike", 2, {}, 1, {}, 1, <<i>>) : i \in {3, 6, 8, 19}}
Sizing == {T(e, s, Every, st, m, {}, 1, {}, 1, <<i>>) : e \in {2}, s \in {2, 3}, st \in {"strike"}, m \in {2}, i \in 1..Good}
Alone == {Plain(Whole, fl, 3) : fl \in {{Flag[j]} : j \in 1..Len(Flag)} \cup {{"npv", Flag[j]} : j \in 1..Len(Flag)} \cup {{}}}
Split == {Plain(Whole, Every, s) : s \in 1..Len(Splits)} \cup {Plain(<<>>, Every, s) : s \in {1, 9}}
Pairs == {Plain(<<i, j>>, Every, 1) : i \in {1, 4, 6, 8, 14, 15, 17, 22, 23}, j \in {5, 7, 9, 10, 13, 16, 18, 21, 24, 25}}
Losing == {T(1, 1, {"npv", "fx", "div", "vega"}, "money", 1, {}, 1, {g}, 3, pp) : g \in Gone, pp \in {<<1, 6, 11, 14, 16, 17, 23>>, <<2, 8, 9, 13, 15, 18, 19, 22, 24>>}}
Lost == {T(1, 1, {"npv", "fx"}, "money", 1, {k}, 1, {}, 3, pp) : k \in Range(EKeys), pp \in {<<1, 6, 11, 14, 16, 17, 23>>, <<2, 8, 9, 12, 13, 15, 18, 19, 22, 24>>}}
Rates == {T(1, 1, {"npv", "fx", "theta"}, "money", 2, {}, f, {}, 1, <<i>>) : f \in 1..Len(FxSets), i \in {17, 18, 19, 20, 21, 22, 8}}
Drawn == {Draw(Seed + k) : k \in 1..Count}
Tests == (IF "each" \in Fams THEN Singles \cup Alone \cup Split \cup Losing \cup Lost \cup Rates ELSE {})
    \cup (IF "more" \in Fams THEN Sizing \cup Pairs ELSE {}) \cup (IF "drawn" \in Fams THEN Drawn ELSE {})
-----------------------------------------------------------------------------
Init == t \in Tests /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
P == [i \in DOMAIN t.p |-> EPool[t.p[i]]]
Tab == TabOf(t.m, t.lost)
D == Data(t.f, t.gone)
C == Cfg(t.s, t.fl, t.st)
Rows(tb) == {[t |-> k[1], k |-> k[2], v |-> tb[k]] : k \in DOMAIN tb}
Sum(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
(* what answers owe each other *)
Net(cells, s) == Sum([i \in DOMAIN cells |-> Sum([j \in DOMAIN cells[i].t |-> IF cells[i].t[j][2] = s THEN cells[i].t[j][1] ELSE 0])])
All == Cfg(t.s, Every, t.st)
Laws == ~done => \A i \in DOMAIN P : LET x == P[i] R == Report(Tab, D, All, P, x, Year(t.e)) IN
    (* an answer is about the instrument alone, but for theta of what matures within the horizon *)
    /\ \A e \in R \ Report(Tab, D, All, <<x>>, x, Year(t.e)) : e.w = "theta" /\ x.mat <= 24 * All.day
    (* without a bump there is nothing to measure *)
    /\ \A e \in R : e.w \notin {"value", "fx", "cash", "theta"} /\ x.type \notin Linear => \A q \in DOMAIN e.v : Sum([j \in DOMAIN e.v[q].t |-> e.v[q].t[j][1]]) = 0
    (* the steps of a tenor structure or matrix of volatilities add up to all steps taken *)
    /\ \A e \in R : e.w \in {"vs", "vm"} => Cardinality({s \in UNION {{e.v[q].t[j][2] : j \in DOMAIN e.v[q].t} : q \in DOMAIN e.v} : Net(e.v, s) # 0}) = 2
    (* at most one answer of a kind per name *)
    /\ \A e, f \in R : e.w = f.w /\ e.k = f.k => e = f
Cover == Emit => PrintT("@@" \o ToJson([e |-> t.e, cfg |-> C, tab |-> Rows(Tab), d |-> D, cats |-> Splits[t.sp], p |-> P, m |-> t.m,
    vol |-> [u \in (D.cvol \cup D.svol) |-> IF u \in D.cvol THEN "const" ELSE "surf"],
    fx |-> [c \in AllFx(P) |-> Rate(D.fx, c)],
    a |-> Run(Tab, D, C, Splits[t.sp], P, Year(t.e))]))
=============================================================================
