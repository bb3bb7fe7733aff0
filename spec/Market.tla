------------------------------- MODULE Market -------------------------------
(* An evaluation date, prices and dividends attached to it.  An instant is [n |-> day, s |-> second] (one offset throughout).
   A dividend is a list of ex-dates with amounts in sixteenths of its reference spot.  A price is kept as its last quote and,
   for every k, the number of times it was multiplied by k/16 (negative: divided). *)
EXTENDS Tenor, FiniteSets
Before(a, b) == a.n < b.n \/ (a.n = b.n /\ a.s < b.s)
AtMost(a, b) == ~Before(b, a)
Ks == 1..40
NoF == [k \in Ks |-> 0]
(* the factors of the dividends d going ex after a and not after b *)
In(d, a, b) == {i \in 1..Len(d.ex) : Before(a, d.ex[i]) /\ AtMost(d.ex[i], b)}
Left(d, i) == 16 - d.a[i]
Factors(d, S) == LET ks == {Left(d, i) : i \in S} IN IF ks = {} THEN NoF ELSE [k \in Ks |-> Cardinality({i \in S : Left(d, i) = k})]
Plus(f, g) == [k \in Ks |-> f[k] + g[k]]
Minus(f, g) == [k \in Ks |-> f[k] - g[k]]
(* the price p is told that the date is e *)
Told(p, ds, e) ==
    IF p.div = 0 THEN p
    ELSE LET d == ds[p.div] IN
         IF Before(p.at, e) THEN [p EXCEPT !.at = e, !.f = Plus(@, Factors(d, In(d, p.at, e)))]
         ELSE [p EXCEPT !.at = e, !.f = Minus(@, Factors(d, In(d, e, p.at)))]
(* the market m is [e, ps, ds]; the attached see every move *)
Goes(m, e) ==
    [m EXCEPT !.e = e,
              !.ps = [i \in 1..Len(@) |-> IF @[i].att THEN Told(@[i], m.ds, e) ELSE @[i]],
              !.ds = [i \in 1..Len(@) |-> IF @[i].att THEN [@[i] EXCEPT !.asof = e] ELSE @[i]]]
(* amounts of the dividends going ex on the days lo + 1 .. hi grow by a; no such days: refused *)
NoDay == 99999999
BumpOk(lo, hi) == lo = NoDay \/ hi = NoDay \/ lo < hi
Inside(n, lo, hi) == (lo = NoDay \/ lo < n) /\ (hi = NoDay \/ n <= hi)
Bumps(m, j, lo, hi, a) ==
    IF ~BumpOk(lo, hi) THEN m
    ELSE [m EXCEPT !.ds[j].a = [i \in 1..Len(@) |-> @[i] + (IF Inside(m.ds[j].ex[i].n, lo, hi) THEN a ELSE 0)], !.ds[j].asof = m.e]
Quotes(m, i, q) == [m EXCEPT !.ps[i].q = q, !.ps[i].f = NoF]
Joins(m, what, i) == IF what = "price" THEN [m EXCEPT !.ps[i].att = TRUE] ELSE [m EXCEPT !.ds[i].att = TRUE]
(* what a dividend still takes off a price by (the end of) day n *)
Ratio(d, n) == Factors(d, {i \in 1..Len(d.ex) : Before(d.asof, d.ex[i]) /\ d.ex[i].n <= n})
(* one step of a history *)
Does(m, o) ==
    CASE o.op = "set" -> Goes(m, o.t)
      [] o.op = "add" -> Goes(m, Move(m.e, o.ps, 1))
      [] o.op = "sub" -> Goes(m, Move(m.e, o.ps, -1))
      [] o.op = "bump" -> Bumps(m, o.i, o.lo, o.hi, o.a)
      [] o.op = "quote" -> Quotes(m, o.i, o.q)
      [] o.op = "join" -> Joins(m, o.what, o.i)
RECURSIVE After(_, _)
After(m, h) == IF h = <<>> THEN m ELSE Does(After(m, SubSeq(h, 1, Len(h) - 1)), h[Len(h)])
=============================================================================
