------------------------------ MODULE CashFlow ------------------------------
(* What bonds and swaps pay, asked on any pricing day.  Instants are [n |-> local day, s |-> second, o |-> offset], all in
   one offset.  Amounts are multiples q of 1/10^8 of the unit notional (c).  A floating coupon is an expression over published
   fixings and forward rates of the curve, since their values are data:
     [flat, steps, spread]: flat:   (average of the rates + spread) * accrual of the single period
                            else:   product over the steps of (1 + (rate + spread) * accrual)  -  1
   a step is [src, f]; a source is ["pub", day] or ["fwd", from, to]. *)
EXTENDS Sched
D == INSTANCE DayCount
NotAfter(a, b) == ~Before(b, a)
Pub(n) == [k |-> "pub", a |-> [n |-> n, s |-> 0], b |-> [n |-> 0, s |-> 0]]
Fwd2(a, b) == [k |-> "fwd", a |-> [n |-> a.n, s |-> a.s], b |-> [n |-> b.n, s |-> b.s]]
Plus(t, part) == At(t, T!Shift([n |-> t.n, s |-> t.s], part.u, part.k).n)
(* an index: tenor of the rate; comp: length of a compounding step ("none": a term rate) *)
Err == [ok |-> FALSE, flat |-> TRUE, steps |-> <<>>, spread |-> 0]
Frac(dc, a, b) == D!Frac(dc, a, b)
(* a rate fixed at t, seen at p with the market of e: published when before p, otherwise from the curve *)
TermRate(ix, t, p, e) ==
    LET end == Plus(t, ix.tenor) IN
    IF Before(t, p) THEN (IF ix.has[t.n] THEN Pub(t.n) ELSE Fwd2(e, end)) ELSE Fwd2(t, end)
StepRate(ix, t, p) ==
    IF Before(t, p) THEN (IF ix.has[t.n] THEN Pub(t.n) ELSE Fwd2(p, Plus(p, ix.comp))) ELSE Fwd2(t, Plus(t, ix.tenor))
Earlier(a, b) == IF Before(a, b) THEN a ELSE b
RECURSIVE Steps(_, _, _, _, _, _, _)
Steps(ix, a, end, p, cs, dc, fg) ==
    IF ~Before(a, end) THEN <<>>
    ELSE LET b == Earlier(Plus(a, ix.comp), end)
             fix == Adjust(cs, PlusDays(a, -fg), "preceding")
         IN <<[src |-> StepRate(ix, fix, p), f |-> Frac(dc, a, b)]>> \o Steps(ix, b, end, p, cs, dc, fg)
Coupon(ix, row, p, e, cs, dc, fg) ==
    LET f == Frac(dc, row.start, row.end)
        last == PlusDays(row.end, -fg)
    IN IF ix.comp.k = 0 THEN [flat |-> TRUE, steps |-> <<[src |-> TermRate(ix, row.fix, p, e), f |-> f]>>, spread |-> ix.spread]
       ELSE IF NotAfter(p, row.fix)
            THEN [flat |-> TRUE, spread |-> ix.spread,
                  steps |-> <<[src |-> Fwd2(row.fix, Plus(row.fix, ix.tenor)), f |-> f], [src |-> Fwd2(last, Plus(last, ix.tenor)), f |-> f]>>]
       ELSE [flat |-> FALSE, steps |-> Steps(ix, row.start, row.end, p, cs, dc, fg), spread |-> ix.spread]
(* a flow: at an instant, q times a known amount c, or m times a coupon (m = 0: none) *)
NoCp == [flat |-> TRUE, steps |-> <<>>, spread |-> 0]
One == 100000000
Known(at, q, c) == [at |-> at, q |-> q, c |-> c, m |-> 0, cp |-> NoCp]
Float(at, m, cp) == [at |-> at, q |-> 0, c |-> 0, m |-> m, cp |-> cp]
(* rate in basis points, accrual in parts per million *)
Simple(rate, f) == (rate * f) \div 100
DueFrom(at, p) == at.n >= p.n
Due(fs, p) == SelectSeq(fs, LAMBDA x : DueFrom(x.at, p))
(* bonds: [rows, given (row number -> amount, 0: computed), rate (bp), ix, float, strip, mat, cs, dc, fg] *)
BondFlows(b, p, e) ==
    LET row(i) == b.rows[i]
        flow(i) == IF b.given[i] # 0 THEN Known(row(i).pay, 1, b.given[i])
                   ELSE IF b.float THEN (IF DueFrom(row(i).pay, p) THEN Float(row(i).pay, 1, Coupon(b.ix, row(i), p, e, b.cs, b.dc, b.fg))
                                         ELSE Known(row(i).pay, 0, 0))
                   ELSE Known(row(i).pay, 1, Simple(b.rate, Frac(b.dc, row(i).start, row(i).end)))
    IN Due([i \in 1..Len(b.rows) |-> flow(i)] \o (IF b.strip THEN <<>> ELSE <<Known(b.mat, 1, One)>>), p)
(* swaps: [fx rows, fl rows, rate (bp), ix, i1, i2, l1, l2 (exchanged amounts, 0: none), eff, mat, cs, dc1, dc2, fg];
   the fixed side is paid, except that its initial exchange is received *)
Or1(x) == IF x = 0 THEN 1 ELSE x
Ex(at, x) == IF x = 0 THEN <<>> ELSE <<Known(at, x, One)>>
FixedFlows(w, p) ==
    Due(Ex(w.eff, w.i1) \o Ex(w.mat, -w.l1) \o
        [i \in 1..Len(w.rows1) |-> Known(w.rows1[i].pay, -Or1(w.i1), Simple(w.rate, Frac(w.dc1, w.rows1[i].start, w.rows1[i].end)))], p)
FloatFlows(w, p, e) ==
    Due(Ex(w.eff, -w.i2) \o Ex(w.mat, w.l2) \o
        [i \in 1..Len(w.rows2) |-> IF DueFrom(w.rows2[i].pay, p) THEN Float(w.rows2[i].pay, Or1(w.i2), Coupon(w.ix, w.rows2[i], p, e, w.cs, w.dc2, w.fg))
                                   ELSE Known(w.rows2[i].pay, 0, 0)], p)
(* what kind of swap it is *)
SwapKind(i1, i2, l1, l2, index, rate, same, empty, soon) ==
    CASE ~i1 /\ ~i2 /\ ~l1 /\ ~l2 /\ index /\ rate /\ same -> "IRS"
      [] i1 /\ i2 /\ l1 /\ l2 /\ index /\ rate /\ ~same -> "CRS"
      [] i1 /\ i2 /\ l1 /\ l2 /\ empty /\ ~index /\ ~rate /\ ~same -> "FxSwap"
      [] ~i1 /\ ~i2 /\ l1 /\ l2 /\ empty /\ ~index /\ ~rate /\ ~same -> IF soon THEN "FxSpot" ELSE "FxForward"
      [] OTHER -> "error"
(* flows of one instant belong together *)
Instants(fs) == {fs[i].at : i \in 1..Len(fs)}
Group(fs) == {[n |-> a.n, s |-> a.s, items |-> LET g == SelectSeq(fs, LAMBDA x : x.at = a) IN [i \in 1..Len(g) |-> [q |-> g[i].q, c |-> g[i].c, m |-> g[i].m, cp |-> g[i].cp]]] : a \in Instants(fs)}
(* laws: known amounts do not depend on the day asked, apart from what is past; every step of a coupon is counted once *)
RECURSIVE SumF(_)
SumF(s) == IF s = <<>> THEN 0 ELSE Head(s).f + SumF(Tail(s))
StepsTile(cp, dc, row) == ~cp.flat => LET w == Frac(dc, row.start, row.end) - SumF(cp.steps) IN w \in 0..Len(cp.steps)
PubOnlyPast(cp, p) == \A i \in 1..Len(cp.steps) : LET x == cp.steps[i].src IN
    /\ x.k = "pub" => x.a.n <= p.n
    /\ x.k = "fwd" => NotAfter([n |-> p.n, s |-> p.s, o |-> p.o], [n |-> x.a.n, s |-> x.a.s, o |-> p.o])
=============================================================================
