------------------------------ MODULE MCPricing ------------------------------
(* Instruments are priced, the market moves, and they are priced again with the same pricer. *)
EXTENDS Pricing, Json, TLC
CONSTANTS Fams, Strikes, Days, Vols, Corrs, MoveSets, Fqs, Lives, Ixs, Yields, Emit
VARIABLES t, done
vars == <<t, done>>
Off == 540
Sec == 59400
I(n) == [n |-> n, s |-> Sec, o |-> Off]
EffDay == DayNo(2023, 11, 30)
-----------------------------------------------------------------------------
Opts == {[fam |-> "opt", put |-> b, k |-> k, days |-> d, vol |-> v, corr |-> c, div |-> dv, mv |-> m] :
            b \in BOOLEAN, k \in Strikes, d \in Days, v \in Vols, c \in Corrs, dv \in BOOLEAN, m \in MoveSets}
Futs == {[fam |-> "fut", days |-> d, div |-> dv, mv |-> m] : d \in Days, dv \in BOOLEAN, m \in MoveSets}
Fxfs == {[fam |-> "fxf", days |-> d, mv |-> m] : d \in Days, m \in MoveSets}
Spots == {[fam |-> "spot", div |-> dv, mv |-> m] : dv \in BOOLEAN, m \in MoveSets}
(* bonds: as in MCCash *)
Part(u, m) == [u |-> u, k |-> m]
Index(x) == CASE x = "term" -> [tenor |-> Part("M", 3), comp |-> Part("D", 0), spread |-> 0]
              [] x = "daily" -> [tenor |-> Part("D", 1), comp |-> Part("D", 1), spread |-> 12500]
              [] OTHER -> [tenor |-> Part("M", 3), comp |-> Part("D", 0), spread |-> 0]
Terms(kk) == {[kind |-> IF x = "" THEN kk ELSE "frn", life |-> l, f |-> f, l |-> c, dc |-> d, ix |-> x, g |-> g, fwd |-> w] :
            l \in Lives, f \in Fqs, c \in {<<"kr_settlement">>}, d \in {"act365", "street"}, x \in (IF kk = "fixed" THEN Ixs ELSE {""}), g \in {<<0, 0>>, <<2, 1>>}, w \in BOOLEAN}
Eff == I(EffDay)
Mat(q) == I(EffDay + q.life)
Cs(q) == [i \in 1..Len(q.l) |-> NewCal(q.l[i])]
Rows(q) == Build(q.fwd, Eff, Mat(q), Cs(q), "modfollowing", q.f, q.g[1], q.g[2])
Bond(q, r) == [rows |-> r, given |-> [i \in 1..Len(r) |-> IF q.kind = "given" /\ i % 2 = 1 THEN 700000 * i ELSE 0], rate |-> 450,
            ix |-> [tenor |-> Index(q.ix).tenor, comp |-> Index(q.ix).comp, spread |-> Index(q.ix).spread, has |-> [n \in (EffDay - 60)..(EffDay + 1200) |-> TRUE]],
            float |-> q.kind = "frn", strip |-> q.kind = "strip", mat |-> Mat(q), cs |-> Cs(q), dc |-> q.dc, fg |-> q.g[1]]
Asked(q, r) == {EffDay - 40, EffDay, EffDay + q.life - 1, EffDay + q.life, EffDay + q.life + 3}
               \cup UNION {{r[i].start.n + 17, r[i].pay.n - 1, r[i].pay.n, r[i].pay.n + 1} : i \in 1..Len(r)}
P(d) == [n |-> d, s |-> IF d % 2 = 0 THEN Sec ELSE IF d % 3 = 0 THEN 0 ELSE 86399, o |-> Off]
Krxs == UNION {LET r == Rows(q) IN IF ~r.ok THEN {} ELSE {[fam |-> "krx", q |-> q, r |-> r.rows, p |-> d, y |-> y] : d \in Asked(q, r.rows), y \in Yields} :
               q \in Terms("fixed") \cup Terms("strip") \cup Terms("given")}
Stds == {[fam |-> "std", years |-> n, c |-> c, f |-> f, y |-> y] : n \in {1, 3, 5, 10}, c \in {0, 300, 500}, f \in {"monthly", "quarterly", "semiannually", "annually"}, y \in Yields \cup {0, 300, 500}}
Basket(n) == [i \in 1..n |-> [kind |-> "fixed", life |-> 250 + 350 * i, f |-> IF i = 2 THEN "quarterly" ELSE "semiannually", l |-> <<"kr_settlement">>, dc |-> "street", ix |-> "", g |-> <<0, 0>>, fwd |-> TRUE]]
Bfus == {[fam |-> "bfu", n |-> n, days |-> d, years |-> y, c |-> c, f |-> f, mv |-> m] :
            n \in {1, 2, 3}, d \in Days, y \in {3, 10}, c \in {500}, f \in {"semiannually", "annually"}, m \in MoveSets}
Tests == (IF "opt" \in Fams THEN Opts ELSE {}) \cup (IF "fut" \in Fams THEN Futs \cup Fxfs \cup Spots ELSE {}) \cup (IF "krx" \in Fams THEN Krxs ELSE {})
         \cup (IF "std" \in Fams THEN Stds ELSE {}) \cup (IF "bfu" \in Fams THEN Bfus ELSE {})
Init == t \in Tests /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Strike == Leaf("strike", 0)
Issue == Eff
Krx(q, r, p) == KrxTerms(Bond(q, r), P(p), P(p), q.f, Issue)
Value == CASE t.fam = "opt" -> (IF t.put THEN Put(Strike, t.corr # 1000) ELSE Call(Strike, t.corr # 1000))
           [] t.fam = "fut" -> Forward
           [] t.fam = "fxf" -> FxForward
           [] t.fam = "spot" -> Spot
           [] t.fam = "krx" -> Krx(t.q, t.r, t.p)
           [] t.fam = "std" -> Standard(t.years, t.c, t.f, Yield)
           [] t.fam = "bfu" -> BondFuture(t.n, t.years, t.c, t.f)
(* a value is the same number modulo a prime as what it must equal *)
Envs == {[s |-> 100 * k, yield |-> 7 * k + 3, flow |-> [i \in 1..40 |-> M(k * i * i + 5)]] : k \in 1..3}
Same(x, y) == \A e \in Envs : Ev(x, e) = Ev(y, e)
Laws == ~done =>
    CASE t.fam = "opt" -> LET q == t.corr # 1000 IN
            /\ Same(Sub(Call(Strike, q), Put(Strike, q)), Mul(DF("disc"), Sub(QForward(Strike, q), Strike)))
            /\ ~q => Same(Call(Strike, FALSE), Add(Put(Strike, FALSE), Mul(DF("disc"), Sub(Forward, Strike))))
      [] t.fam = "std" -> \* a bond that pays its yield is worth its face
            /\ t.c = t.y => Same(Standard(t.years, t.c, t.f, Num(t.y, 10000)), N1)
      [] t.fam = "krx" -> LET fs == After(Bond(t.q, t.r), P(t.p), P(t.p)) IN
            \* without yield a bond is worth its flows
            \A e \in Envs : Ev(Krx(t.q, t.r, t.p), [e EXCEPT !.yield = 0]) = Ev(Total([i \in 1..Len(fs) |-> Leaf("flow", i)]), e)
      [] OTHER -> TRUE
Row4(x) == <<x.fix.n, x.start.n, x.end.n, x.pay.n>>
BTerms(q, r) == [kind |-> q.kind, kinds |-> q.l, f |-> q.f, dc |-> q.dc, fg |-> q.g[1], pg |-> q.g[2], fwd |-> q.fwd, eff |-> Eff, mat |-> Mat(q),
           ix |-> [tenor |-> Index(q.ix).tenor, comp |-> Index(q.ix).comp, spread |-> Index(q.ix).spread, pub |-> IF q.ix = "" THEN "none" ELSE "all"],
           rows |-> [i \in 1..Len(r) |-> Row4(r[i])], given |-> Bond(q, r).given]
Flows(q, r, p) == LET fs == After(Bond(q, r), P(p), P(p)) IN
    [i \in 1..Len(fs) |-> [n |-> fs[i].at.n, s |-> fs[i].at.s, items |-> <<[q |-> fs[i].q, c |-> fs[i].c, m |-> fs[i].m, cp |-> fs[i].cp]>>]]
Today == EffDay + 100
BondOf(q, p) == LET r == Rows(q).rows IN [t |-> BTerms(q, r), flows |-> Flows(q, r, p), krx |-> Krx(q, r, p)]
Extra == CASE t.fam = "krx" -> [p |-> P(t.p), b |-> <<[t |-> BTerms(t.q, t.r), flows |-> Flows(t.q, t.r, t.p)]>>]
           [] t.fam = "bfu" -> [p |-> I(Today + t.days), b |-> [i \in 1..t.n |-> BondOf(Basket(t.n)[i], Today + t.days)]]
           [] OTHER -> [p |-> I(Today), b |-> <<>>]
Cover == Emit => PrintT("@@" \o ToJson([price |-> [x \in DOMAIN t \ {"q", "r"} |-> t[x]], e |-> I(Today), v |-> Value, x |-> Extra]))
CorrsAll == {1000, -600, 500}
MovesQuick == {<<>>, <<"day1", "spot+">>, <<"vol+", "disc+">>}
MovesBig == {<<>>, <<"spot+", "spot-", "day7">>, <<"vol+", "disc+">>, <<"coll+", "day1", "borrow+">>, <<"div+", "day30">>, <<"day7", "back7", "spot-">>, <<"div+", "fxvol+">>, <<"fxvol+", "back7">>}
MovesFut == {<<>>, <<"spot+", "fx+">>, <<"day1", "coll+">>, <<"borrow+", "disc+">>, <<"div+">>, <<"fix+">>, <<"flo+", "day30">>}
=============================================================================
