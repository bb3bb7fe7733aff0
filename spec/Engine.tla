------------------------------- MODULE Engine -------------------------------
(* Valuing a portfolio and measuring its sensitivities.

   A run is asked for a list of measures (cfg) of a portfolio, split over engines by the first category an instrument falls in,
   on market data D matched to instruments by the tables tab.  It answers, or refuses when an instrument falls nowhere, has run
   out, or lacks a datum its value needs.

   An answer is a list of numbers, each worked out from values of the instrument in stated scenarios (the market with one bump,
   everything else as given): a cell [t, n, d] is (sum of m * value(s) over <<m, s>> in t) * n / d, per unit of the contract.
   Maturities are hours from the evaluation time (0: none). *)
EXTENDS Match
No == <<>>
Sc(k, x, w) == [k |-> k, x |-> x, w |-> w]
Base == Sc("base", "", No)
Cell(t, n, d) == [t |-> t, n |-> n, d |-> d]
Entry(w, k, v) == [w |-> w, k |-> k, v |-> v]
-----------------------------------------------------------------------------
(* which category an instrument falls in: the first that has its type, currency and underlyings (no list: any) *)
AnyList == <<"*">>
Cat(t, c, u) == [t |-> t, c |-> c, u |-> u]
In(cat, x) == /\ cat.t = {} \/ x.type \in cat.t
              /\ cat.c = {} \/ x.ccy \in cat.c
              /\ cat.u = AnyList \/ x.und = <<>> \/ x.und = cat.u
Falls(cats, x) == LET S == {k \in DOMAIN cats : In(cats[k], x)} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
Group(cats, p, k) == SelectSeq(p, LAMBDA x : Falls(cats, x) = k)
-----------------------------------------------------------------------------
(* exchange rates: the pair itself, its reciprocal, or both currencies against the won; a rational <<n, d>>, <<0, 0>>: not known *)
Half(c, k) == IF k = 1 THEN SubSeq(c, 1, 3) ELSE SubSeq(c, 4, 6)
Rate(fx, c) ==
    LET a == Half(c, 1)  b == Half(c, 2)  K == DOMAIN fx  w == "KRW" IN
    IF c \in K THEN fx[c] ELSE IF (b \o a) \in K THEN <<fx[b \o a][2], fx[b \o a][1]>>
    ELSE IF {a \o w, b \o w} \subseteq K THEN <<fx[a \o w][1] * fx[b \o w][2], fx[a \o w][2] * fx[b \o w][1]>> ELSE <<0, 0>>
(* the curves set up for a portfolio: all it is valued on, and each underlying's own (its borrowing cost) *)
SetUp(tab, p) == AllCurves(tab, p) \cup AllUnd(p)
(* the curves a pricer works with *)
Legs(tab, x) ==
    LET u == IF x.und = <<>> THEN "" ELSE x.und[1]  irs == x.type = "IRS" IN
    [coll |-> IF u = "" THEN Dummy ELSE Get(tab, "coll", u), borrow |-> IF u = "" THEN Dummy ELSE Get(tab, "borrow", u),
     disc |-> Discount(tab, x), idx |-> Index(tab, x),
     (* a swap in one currency discounts on its index's curve, one in two currencies each leg on its currency's *)
     fix |-> IF irs THEN Index(tab, x) ELSE Crs(tab, x), flo |-> IF irs THEN Index(tab, x) ELSE FloCrs(tab, x)]
Priced(tab, D, p, x) ==
    LET Z == SetUp(tab, p)  L == Legs(tab, x)
        Fixed == x.idx = "" \/ (L.idx \in Z /\ x.idx \in D.fix) IN
    CASE x.type = "Futures" -> {L.coll, L.borrow} \subseteq Z
      [] x.type \in {"VanillaCall", "VanillaPut"} -> {L.coll, L.borrow, L.disc} \subseteq Z
      [] x.type = "Bond" -> L.disc \in Z /\ Fixed
      [] IsSwap(x) -> {L.fix, L.flo} \subseteq Z /\ Fixed
      [] x.type = "FxFutures" -> {L.fix, L.flo} \subseteq Z
      [] x.type = "Stock" -> x.code \in AllUnd(p)
      [] x.type = "Cash" -> TRUE
      [] OTHER -> FALSE
Ready(tab, D, p) ==
    /\ \A i \in DOMAIN p : p[i].mat >= 0
    /\ \A c \in AllFx(p) : Rate(D.fx, c) # <<0, 0>>
    /\ Known(tab, p) /\ AllCurves(tab, p) \subseteq D.curve
    /\ AllUnd(p) \subseteq D.curve \cap D.stock
    /\ \A u \in AllVol(p) : u \in D.cvol \cup D.svol /\ Get(tab, "borrow", u) \in SetUp(tab, p)
    /\ \A q \in AllQuanto(p) : q[2] \in D.fxvol /\ q \in D.corr
    /\ \A i \in DOMAIN p : Priced(tab, D, p, p[i])
-----------------------------------------------------------------------------
Linear == {"Stock", "Futures"}
One(s) == <<<<1, s>>>>
Diff(s, s0) == <<<<1, s>>, <<-1, s0>>>>
(* the n-th window of a grid of k points: above point n - 1, up to point n; from the first point down and from the last up it is
   open towards zero only *)
Win(n) == <<n - 1, n>>
Flat == <<0, 0>>
(* volatility windows are bumped one after the other from the longest: what one adds *)
VolTail(n, k) == [j \in 1..(k - n + 1) |-> Win(k - j + 1) \o Flat]
(* cells likewise, the moneyness of a tenor from the lowest *)
VolCells(n, j, k, w) == [q \in 1..((k - n) * w + j) |-> Win(k - ((q - 1) \div w)) \o Win(((q - 1) % w) + 1)]
VolSc(u, w) == IF w = <<>> THEN Base ELSE Sc("vol", u, w)
Prev(w) == SubSeq(w, 1, Len(w) - 1)
(* the day theta looks ahead to: within the horizon the shortest maturity of those of the engine that mature, else the horizon *)
Soon(p, h) == Upto(p, h, {"Stock", "Cash"})
Ahead(p, x, h) == IF x.mat # 0 /\ x.mat <= h THEN Shortest(Soon(p, h)) ELSE h
Exposure(tab, x) ==
    CASE x.type = "Futures" -> {<<x.ccy, <<<<1, Base>>, <<-1, Sc("traded", "", No)>>>>>>}
      [] x.type = "FxFutures" -> {<<x.ccy, <<<<-1, Sc("tradeddf", Legs(tab, x).fix, No)>>>>>>, <<x.undccy, <<<<1, Sc("df", Legs(tab, x).flo, No)>>>>>>}
      [] IsSwap(x) -> IF x.fix = x.flo THEN {<<x.ccy, <<<<1, Sc("leg", "fix", No)>>, <<1, Sc("leg", "flo", No)>>>>>>}
                      ELSE {<<x.fix, <<<<1, Sc("leg", "fix", No)>>>>>>, <<x.flo, <<<<1, Sc("leg", "flo", No)>>>>>>}
      [] OTHER -> {<<x.ccy, One(Base)>>}
(* everything reported about x, an instrument of the engine working on p; year: days of the year of the evaluation date *)
Report(tab, D, cfg, p, x, year) ==
    LET is(T) == x.type \in T
        unds == Range(x.und)
        curves == Roles(tab, x) \ {Dummy}
        on(f, S) == IF f THEN S ELSE {}
        nr == Len(cfg.rt)  nv == Len(cfg.vt)  nd == Len(cfg.dt)  nx == Len(cfg.xs)
        h == Ahead(p, x, 24 * cfg.day) IN
    on(cfg.npv, {Entry("value", "", <<Cell(One(Base), 1, 1)>>), Entry("cash", "", <<>>)})
    \cup on(cfg.fx, {Entry("fx", e[1], <<Cell(e[2], 1, 1)>>) : e \in Exposure(tab, x)})
    \cup on(cfg.delta, IF is(Linear)
        THEN {Entry("delta", x.code, <<Cell(One(Base), 1, 100)>>), Entry("gamma", x.code, <<Cell(<<>>, 1, 1)>>)}
        ELSE UNION {LET up == Sc("spot", u, <<1>>)  down == Sc("spot", u, <<-1>>) IN
                    {Entry("delta", u, <<Cell(Diff(up, down), 100, 2 * cfg.r)>>),
                     Entry("gamma", u, <<Cell(<<<<1, up>>, <<1, down>>, <<-2, Base>>>>, 10000, 2 * cfg.r * cfg.r)>>)} : u \in unds})
    \cup on(cfg.theta, {Entry("theta", "", IF is({"Stock", "Cash"}) THEN <<Cell(<<>>, 1, 1)>>
        ELSE <<Cell(Diff(Sc("date", "", <<h>>), Base) \o <<<<1, Sc("cash", "", <<h>>)>>>>, 24 * year, 365 * h)>>)})
    \cup on(cfg.vega /\ ~is(Linear), {Entry("vega", u, <<Cell(Diff(Sc("vol", u, <<Flat \o Flat>>), Base), 10000, cfg.vb)>>) : u \in unds})
    \cup on(cfg.rho /\ ~is({"Stock"}), {Entry("rho", c, <<Cell(Diff(Sc("curve", c, Flat), Base), 100, cfg.rb)>>) : c \in curves})
    \cup on(cfg.div /\ ~is({"Stock"}), {Entry("div", u, <<Cell(Diff(Sc("div", u, Flat), Base), 100, cfg.db)>>) : u \in unds \cap D.div})
    \cup on(cfg.vs /\ ~is(Linear), {Entry("vs", u, [n \in 1..nv |-> Cell(Diff(VolSc(u, VolTail(n, nv)), VolSc(u, Prev(VolTail(n, nv)))), 10000, cfg.vsb)]) : u \in unds})
    \cup on(cfg.rs /\ ~is({"Stock"}), {Entry("rs", c, [n \in 1..nr |-> Cell(Diff(Sc("curve", c, Win(n)), Base), 100, cfg.rb)]) : c \in curves})
    \cup on(cfg.ds /\ ~is({"Stock"}), {Entry("ds", u, [n \in 1..nd |-> Cell(Diff(Sc("div", u, Win(n)), Base), 100, cfg.db)]) : u \in unds \cap D.div})
    \cup on(cfg.vm /\ ~is(Linear), {Entry("vm", u, [q \in 1..(nv * nx) |->
            LET w == VolCells(((q - 1) \div nx) + 1, ((q - 1) % nx) + 1, nv, nx) IN
            Cell(Diff(VolSc(u, w), VolSc(u, Prev(w))), 10000, cfg.vsb)]) : u \in unds})
(* nothing but the value can be had without the value *)
Needs(R) == \E e \in R : e.w # "value" /\ e.w # "cash" /\ e.v # <<Cell(<<>>, 1, 1)>>
Answered(tab, D, cfg, p, year) == Ready(tab, D, p) /\ (cfg.npv \/ \A i \in DOMAIN p : ~Needs(Report(tab, D, cfg, p, p[i], year)))
Run(tab, D, cfg, cats, p, year) ==
    LET G == [k \in DOMAIN cats |-> Group(cats, p, k)]
        ok == (\A i \in DOMAIN p : Falls(cats, p[i]) # 0) /\ \A k \in DOMAIN cats : G[k] = <<>> \/ Answered(tab, D, cfg, G[k], year) IN
    [ok |-> ok,
     groups |-> IF ok THEN SelectSeq([k \in DOMAIN cats |-> Codes(G[k])], LAMBDA g : g # <<>>) ELSE <<>>,
     r |-> IF ok THEN [i \in DOMAIN p |-> [code |-> p[i].code, legs |-> Legs(tab, p[i]), e |-> Report(tab, D, cfg, G[Falls(cats, p[i])], p[i], year)]] ELSE <<>>]
(* a configuration is refused when it asks for delta without gamma, or for a bump or a horizon that is not positive *)
Accepts(delta, gamma, bumps, day) == delta = gamma /\ (\A b \in Range(bumps) : b > 0) /\ day > 0
=============================================================================
