------------------------------- MODULE Match -------------------------------
(* Which curves an instrument is valued on, and which instruments of a portfolio a market datum concerns.

   An instrument is a record: code, type, ccy, und (what it is written on), vol (those whose volatility it needs), quanto
   (<<und, fx>> pairs), fx (rates that convert its legs), tags (borrowing curves of bond futures), mat (0: none), and by kind
   iss (bonds: who owes), idx (floating rate index or ""), fix/flo (leg currencies), undccy, settled (options).
   tab maps <<table, key>> to a curve name; what is not in its domain is not known. *)
EXTENDS Integers, Sequences, FiniteSets
Dummy == "Dummy"
Unknown == "?"
Range(s) == {s[i] : i \in DOMAIN s}
Get(tab, t, k) == IF <<t, k>> \in DOMAIN tab THEN tab[<<t, k>>] ELSE Unknown
Swaps == {"IRS", "CRS", "FxSwap", "FxForward", "FxSpot"}
Bonds == {"Bond"}
IsSwap(x) == x.type \in Swaps
(* the curve an instrument's cash is discounted on; exchange traded futures, stocks, cash and daily settled options need none *)
Discount(tab, x) ==
    CASE x.type \in Bonds -> IF Get(tab, "bond", x.iss) = Unknown THEN Dummy ELSE Get(tab, "bond", x.iss)
      [] IsSwap(x) -> IF x.idx = "" THEN Dummy ELSE Get(tab, "idx", x.idx)
      [] x.type \in {"VanillaCall", "VanillaPut"} -> IF x.settled THEN Dummy ELSE Get(tab, "fund", x.ccy)
      [] OTHER -> Dummy
Index(tab, x) == IF (x.type \in Bonds \/ IsSwap(x)) /\ x.idx # "" THEN Get(tab, "idx", x.idx) ELSE Dummy
Crs(tab, x) == IF IsSwap(x) /\ x.type # "IRS" THEN Get(tab, "crs", x.fix) ELSE IF x.type = "FxFutures" THEN Get(tab, "crs", x.ccy) ELSE Dummy
FloCrs(tab, x) == IF IsSwap(x) /\ x.type # "IRS" THEN Get(tab, "crs", x.flo) ELSE IF x.type = "FxFutures" THEN Get(tab, "crs", x.undccy) ELSE Dummy
Collateral(tab, x) == [i \in 1..Len(x.und) |-> Get(tab, "coll", x.und[i])]
Borrowing(tab, x) == LET k == x.und \o x.tags IN [i \in 1..Len(k) |-> Get(tab, "borrow", k[i])]
(* every curve that values x (borrowing cannot be hedged and is left out) *)
Roles(tab, x) == {Discount(tab, x), Index(tab, x), Crs(tab, x), FloCrs(tab, x)} \cup Range(Collateral(tab, x))
(* a portfolio is a sequence of instruments; names are known only if every instrument's are *)
Known(tab, p) == \A i \in DOMAIN p : Unknown \notin Roles(tab, p[i])
AllCurves(tab, p) == UNION {Roles(tab, p[i]) : i \in DOMAIN p} \ {Dummy}
Pick(p, T(_)) == SelectSeq(p, T)
Codes(p) == [i \in DOMAIN p |-> p[i].code]
(* excluded types are not even looked up *)
Using(tab, p, c, ex) == Pick(p, LAMBDA x : x.type \notin ex /\ c \in Roles(tab, x))
UsingKnown(tab, p, ex) == Known(tab, Pick(p, LAMBDA x : x.type \notin ex))
WithUnd(p, u, ex) == Pick(p, LAMBDA x : x.type \notin ex /\ u \in Range(x.und))
WithCcy(p, c) == Pick(p, LAMBDA x : x.ccy = c)
WithTypes(p, ts) == Pick(p, LAMBDA x : x.type \in ts)
Upto(p, m, ex) == Pick(p, LAMBDA x : x.type \notin ex /\ x.mat # 0 /\ x.mat <= m)
Over(p, m, ex) == Pick(p, LAMBDA x : x.type \notin ex /\ (x.mat = 0 \/ x.mat > m))
Mats(p) == {p[i].mat : i \in DOMAIN p} \ {0}
(* no maturity is an infinite maturity; 0 stands for "none" in the answers too *)
Shortest(p) == IF Mats(p) = {} THEN 0 ELSE CHOOSE m \in Mats(p) : \A k \in Mats(p) : m <= k
Longest(p) == IF \E i \in DOMAIN p : p[i].mat = 0 THEN 0 ELSE IF p = <<>> THEN 0 ELSE CHOOSE m \in Mats(p) : \A k \in Mats(p) : m >= k
AllUnd(p) == UNION {Range(p[i].und) : i \in DOMAIN p}
AllVol(p) == UNION {Range(p[i].vol) : i \in DOMAIN p}
AllTypes(p) == {p[i].type : i \in DOMAIN p}
AllFx(p) == UNION {Range(p[i].fx) : i \in DOMAIN p}
AllQuanto(p) == UNION {Range(p[i].quanto) : i \in DOMAIN p}
(* currencies of the legs of swaps and of the underlyings of futures count *)
Ccys(x) == {x.ccy} \cup (IF IsSwap(x) THEN {x.flo} ELSE IF x.type \in {"Futures", "FxFutures"} THEN {x.undccy} ELSE {})
AllCcys(p) == UNION {Ccys(p[i]) : i \in DOMAIN p}
-----------------------------------------------------------------------------
(* the instruments of the checks *)
B == [code |-> "", type |-> "", ccy |-> "KRW", und |-> <<>>, vol |-> <<>>, quanto |-> <<>>, fx |-> <<>>, tags |-> <<>>, mat |-> 0,
      iss |-> "", idx |-> "", fix |-> "", flo |-> "", undccy |-> "", settled |-> FALSE]
Fut(c, u, uc, cc, m) == [B EXCEPT !.code = c, !.type = "Futures", !.ccy = cc, !.und = <<u>>, !.undccy = uc, !.mat = m]
Bd(c, iss, cc, idx, m) == [B EXCEPT !.code = c, !.type = "Bond", !.ccy = cc, !.iss = iss, !.idx = idx, !.mat = m]
Sw(c, ty, f1, f2, idx, m) == [B EXCEPT !.code = c, !.type = ty, !.ccy = f1, !.fix = f1, !.flo = f2, !.idx = idx, !.mat = m,
                                       !.fx = IF f1 = f2 THEN <<>> ELSE <<f2 \o f1>>]
Opt(c, ty, u, uc, cc, st, m) == [B EXCEPT !.code = c, !.type = ty, !.ccy = cc, !.und = <<u>>, !.vol = <<u>>, !.undccy = uc, !.settled = st, !.mat = m,
                                          !.quanto = IF uc = cc THEN <<>> ELSE <<<<u, uc \o cc>>>>]
Pool == <<
    Fut("FUT1", "S1", "KRW", "KRW", 100), Fut("FUT2", "S2", "USD", "USD", 300), Fut("FUTQ", "S2", "USD", "KRW", 300),
    Bd("BOND1", "GOV/Government/None/KRW", "KRW", "", 500), Bd("BOND2", "BNK/Financial/AA/KRW", "KRW", "", 200),
    Bd("BOND3", "GOV/Government/None/USD", "USD", "", 800), Bd("FRN1", "BNK/Financial/AA/KRW", "KRW", "CD", 700),
    Bd("FRN2", "BNK/Financial/BBB/KRW", "KRW", "SOFR", 700),
    [B EXCEPT !.code = "KTBF1", !.type = "KTBF", !.tags = <<"KTB10">>, !.mat = 200],
    Sw("IRS1", "IRS", "KRW", "KRW", "CD", 1000), Sw("IRS2", "IRS", "USD", "USD", "SOFR", 400), Sw("CRS1", "CRS", "KRW", "USD", "SOFR", 900),
    Sw("CRS2", "CRS", "USD", "KRW", "CD", 300), Sw("FXS1", "FxSwap", "KRW", "USD", "", 150), Sw("FXF1", "FxForward", "KRW", "USD", "", 100),
    Sw("FXF2", "FxForward", "USD", "KRW", "", 200), Sw("FXSP", "FxSpot", "KRW", "USD", "", 2),
    [B EXCEPT !.code = "FXFU", !.type = "FxFutures", !.undccy = "USD", !.fx = <<"USDKRW">>, !.mat = 100],
    Opt("CALL1", "VanillaCall", "S1", "KRW", "KRW", FALSE, 100), Opt("PUT2", "VanillaPut", "S2", "USD", "USD", TRUE, 300),
    Opt("CALLQ", "VanillaCall", "S2", "USD", "KRW", FALSE, 300), Opt("PUT1", "VanillaPut", "S1", "KRW", "KRW", FALSE, 500),
    [B EXCEPT !.code = "S1", !.type = "Stock", !.und = <<"S1">>], [B EXCEPT !.code = "S2", !.type = "Stock", !.ccy = "USD", !.und = <<"S2">>],
    [B EXCEPT !.code = "USD", !.type = "Cash", !.ccy = "USD"] >>
Keys == <<<<"coll", "S1">>, <<"coll", "S2">>, <<"borrow", "S1">>, <<"borrow", "S2">>, <<"borrow", "KTB10">>,
          <<"bond", "GOV/Government/None/KRW">>, <<"bond", "GOV/Government/None/USD">>, <<"bond", "BNK/Financial/AA/KRW">>, <<"bond", "BNK/Financial/BBB/KRW">>,
          <<"idx", "CD">>, <<"idx", "SOFR">>, <<"crs", "KRW">>, <<"crs", "USD">>, <<"fund", "KRW">>, <<"fund", "USD">>>>
Find(c) == CHOOSE i \in 1..Len(Pool) : Pool[i].code = c
Types == {Pool[i].type : i \in 1..Len(Pool)}
=============================================================================
