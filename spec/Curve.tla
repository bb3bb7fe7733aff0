-------------------------------- MODULE Curve --------------------------------
(* Zero curves and volatilities: values standing on pillars, read in between, and bumped over windows.  Rates, volatilities,
   times and weights are in parts per million; places among n pillars are 2i (pillar i) and 2i + 1 (between i and i + 1). *)
EXTENDS Tenor, DayCount, FiniteSets
T(u, k) == <<[u |-> u, k |-> k]>>
T2(k) == <<[u |-> "Y", k |-> k], [u |-> "M", k |-> 6]>>
Pillars == <<T("D", 0), T("D", 1), T("W", 1), T("W", 2), T("M", 1), T("M", 2), T("M", 3), T("M", 4), T("M", 5), T("M", 6), T("M", 9), T("Y", 1),
             T2(1), T("Y", 2), T2(2), T("Y", 3), T("Y", 4), T("Y", 5), T("Y", 6), T("Y", 7), T("Y", 8), T("Y", 9), T("Y", 10), T("Y", 12), T("Y", 15),
             T("Y", 20), T("Y", 30), T("Y", 50), T("Y", 100)>>
TimesOf(e, ps) == [i \in 1..Len(ps) |-> Time(e, Move(e, ps[i], 1))]
(* a * b / c for 0 <= b <= c, digit by digit *)
MulDiv(a, b, c) ==
    LET RECURSIVE go(_, _, _)
        go(k, r, p) == IF k = 0 THEN 0 ELSE (100 * a * ((10 * r) \div c)) \div p + go(k - 1, (10 * r) % c, 10 * p)
    IN IF b = c THEN a ELSE (go(7, b, 10) + 50) \div 100
(* where a time stands: between pillars i and i + 1, w of the way; flat outside *)
Place(ts, t) ==
    LET n == Len(ts) IN
    IF n = 1 \/ t <= ts[1] THEN [i |-> 1, w |-> 0]
    ELSE IF t >= ts[n] THEN [i |-> n, w |-> 0]
    ELSE LET i == CHOOSE k \in 1..(n - 1) : ts[k] <= t /\ t < ts[k + 1]
         IN [i |-> i, w |-> MulDiv(1000000, t - ts[i], ts[i + 1] - ts[i])]
Mix(v, p) == IF p.w = 0 THEN v[p.i] ELSE v[p.i] + MulDiv(v[p.i + 1] - v[p.i], p.w, 1000000)
(* the rates of a new curve: linear between the given ones, flat outside *)
Interpolated(ts, rs, at) == [i \in 1..Len(at) |-> Mix(rs, Place(ts, at[i]))]
(* windows of places: start exclusive, end inclusive; -1 is no limit *)
WinOk(lo, hi) == lo = -1 \/ hi = -1 \/ lo <= hi
InWin(q, lo, hi) == (lo = -1 \/ lo < q) /\ (hi = -1 \/ q <= hi)
Bump(v, lo, hi, a) == [i \in 1..Len(v) |-> v[i] + (IF InWin(2 * i, lo, hi) THEN a ELSE 0)]
Bump2(v, l1, h1, l2, h2, a) == [i \in 1..Len(v) |-> [j \in 1..Len(v[i]) |-> v[i][j] + (IF InWin(2 * i, l1, h1) /\ InWin(2 * j, l2, h2) THEN a ELSE 0)]]
(* the place of a time among pillar times *)
PlaceOf(ts, t) == IF \E i \in 1..Len(ts) : ts[i] = t THEN 2 * (CHOOSE i \in 1..Len(ts) : ts[i] = t)
                  ELSE 2 * Cardinality({i \in 1..Len(ts) : ts[i] < t}) + 1
(* not so near to a pillar that rounding decides *)
Clear(ts, t) == \A i \in 1..Len(ts) : ts[i] = t \/ ts[i] - t > 100 + t \div 100000 \/ t - ts[i] > 100 + t \div 100000
=============================================================================
