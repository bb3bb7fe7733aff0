------------------------------ MODULE TraceCash ------------------------------
(* Recorded cash flows of random bonds and swaps.  Every fixing is zero except one of 100% on day x, and the curve is flat at
   zero, so a floating coupon shows with which weight it uses the fixing of that day (and its spread). *)
EXTENDS CashFlow, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
Has == [n \in 9000..29500 |-> TRUE]
Abs(n) == IF n < 0 THEN -n ELSE n
Mul(a, ppm) == (a \div 1000) * (ppm \div 1000) + (((a \div 1000) * (ppm % 1000)) \div 1000) + (((a % 1000) * (ppm \div 1000)) \div 1000)
RECURSIVE Hit(_, _, _), Rest(_, _)
(* growth, in parts per million, of the steps on day x with rate 1 + spread; accruals of the others *)
Hit(ss, x, sp) == IF ss = <<>> THEN 1000000
                  ELSE LET h == Hit(Tail(ss), x, sp)  s == Head(ss) IN
                       IF s.src.k = "pub" /\ s.src.a.n = x THEN h + Mul(h, s.f + Mul(s.f, sp)) ELSE h
Rest(ss, x) == IF ss = <<>> THEN 0 ELSE Rest(Tail(ss), x) + (IF Head(ss).src.k = "pub" /\ Head(ss).src.a.n = x THEN 0 ELSE Head(ss).f)
(* a coupon in parts per million *)
Value(cp, x) ==
    IF cp.steps = <<>> THEN 0
    ELSE IF cp.flat THEN LET f == cp.steps[1].f IN
                         (IF cp.steps[1].src.k = "pub" /\ cp.steps[1].src.a.n = x THEN f ELSE 0) + Mul(f, cp.spread)
    ELSE LET h == Hit(cp.steps, x, cp.spread)
             s == Mul(Rest(cp.steps, x), cp.spread)
             n == Len(cp.steps)
         IN h - 1000000 + Mul(h, s + ((Mul(s, s) * (n - 1)) \div (2 * n)))     \* the spread compounds over n steps
Amount(items, x) ==
    LET RECURSIVE sum(_)
        sum(s) == IF s = <<>> THEN 0
                  ELSE sum(Tail(s)) + Head(s).q * Head(s).c + 100 * Head(s).m * Value(Head(s).cp, x)
    IN sum(items)
Tol(a) == 3000 + Abs(a) \div 2000000
AllClose(rows, groups, x) ==
    /\ Len(rows) = Cardinality(groups)
    /\ \A g \in groups : \E i \in 1..Len(rows) :
          /\ rows[i].n = g.n /\ rows[i].s = g.s
          /\ LET a == Amount(g.items, x) IN Abs(rows[i].a - a) <= Tol(a)
TNext ==
    \/ Op("reset")
    \/ /\ Op("ask")
       /\ LET t == E.t
              cs == [i \in 1..Len(t.kinds) |-> NewCal(t.kinds[i])]
              sch == Build(t.fwd, t.eff, t.mat, cs, "modfollowing", t.f, t.fg, t.pg)
              r == sch.rows
              ix == [tenor |-> t.ix.tenor, comp |-> t.ix.comp, spread |-> t.ix.spread, has |-> Has]
              bond == [rows |-> r, given |-> [i \in 1..Len(r) |-> 0], rate |-> 450, ix |-> ix, float |-> t.kind = "frn", strip |-> t.kind = "strip",
                       mat |-> t.mat, cs |-> cs, dc |-> t.dc, fg |-> t.fg]
              swap == [rows1 |-> r, rows2 |-> r, rate |-> 310, ix |-> [ix EXCEPT !.spread = 0], i1 |-> t.ex[1], i2 |-> t.ex[2], l1 |-> t.ex[3], l2 |-> t.ex[4],
                       eff |-> t.eff, mat |-> t.mat, cs |-> cs, dc1 |-> t.dc, dc2 |-> IF t.dc = "act365" THEN "act360" ELSE "act365", fg |-> t.fg]
          IN /\ sch.ok = E.ok
             /\ E.ok => IF t.kind \in {"irs", "crs"}
                        THEN /\ AllClose(E.fix, Group(FixedFlows(swap, E.p)), E.x)
                             /\ AllClose(E.flo, Group(FloatFlows(swap, E.p, E.e)), E.x)
                        ELSE AllClose(E.bond, Group(BondFlows(bond, E.p, E.e)), E.x)
TInit == l = 1
TSpec == TInit /\ [][TNext]_l
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
