-------------------------------- MODULE MCVol --------------------------------
(* A volatility is bumped over windows of maturity and moneyness while its underlying trades elsewhere, and is read for options
   of given strikes. *)
EXTENDS Curve, Json, TLC
CONSTANTS Srcs, Grids, TWins, XWins, Depth, Emit
VARIABLES c, h, v, p
vars == <<c, h, v, p>>
E0 == [n |-> DayNo(2024, 1, 15), s |-> 57600]
(* vega grids: maturities and moneyness (parts per million) *)
Tenors(g) == CASE g = 1 -> <<T("M", 1), T("M", 3), T("M", 6), T("Y", 1), T("Y", 2)>> [] g = 2 -> <<T("W", 2), T("Y", 1), T2(1)>>
Xs(g) == CASE g = 1 -> <<800000, 900000, 1000000, 1150000>> [] g = 2 -> <<500000, 1000000, 1100000, 1200000, 2000000>>
(* the market's surface: maturities, strikes as moneyness *)
MktT == <<T("M", 2), T("M", 6), T("Y", 1), T("M", 18)>>
MktX == <<700000, 950000, 1050000, 1300000>>
MktV == [i \in 1..4 |-> [j \in 1..4 |-> 180000 + 9000 * i + 3000 * ((5 * i * j) % 7) - 5000 * j]]
Grid0 == [g \in {1, 2} |-> [i \in 1..Len(Tenors(g)) |-> [j \in 1..Len(Xs(g)) |->
            LET at == Place(TimesOf(E0, MktT), Time(E0, Move(E0, Tenors(g)[i], 1)))
                ax == Place(MktX, Xs(g)[j])
            IN Mix([k \in 1..4 |-> Mix(MktV[k], ax)], at)]]]
Flat(g) == [i \in 1..Len(Tenors(g)) |-> [j \in 1..Len(Xs(g)) |-> 230000]]
Init == /\ c \in [src : Srcs, g : Grids, stick : {"moneyness", "strike"}, rich : BOOLEAN]
        /\ c.src = "constant" => c.g = 1 /\ c.stick = "strike" /\ ~c.rich
        /\ h = <<>> /\ p = 1000000
        /\ v = CASE c.src = "surface" -> Grid0[c.g] [] c.src = "flat" -> Flat(c.g) [] OTHER -> <<<<230000>>>>
TWinsQ == {<<-1, -1>>, <<-1, 2>>, <<2, 4>>, <<3, 5>>, <<4, -1>>, <<1, 6>>, <<6, 3>>}
XWinsQ == {<<-1, -1>>, <<-1, 4>>, <<2, 4>>, <<3, 7>>, <<6, -1>>, <<4, 2>>}
BumpOps == {[op |-> "bump", l1 |-> x[1], h1 |-> x[2], l2 |-> y[1], h2 |-> y[2], a |-> a] : x \in TWins, y \in XWins, a \in {20000, -10000}}
PriceOps == {[op |-> "price", p |-> q] : q \in {800000, 1250000}}
Limit(o, f, n) == o[f] = -1 \/ o[f] <= 2 * n + 1
Fits(o) == LET n == Len(Tenors(c.g))  m == Len(Xs(c.g)) IN Limit(o, "l1", n) /\ Limit(o, "h1", n) /\ Limit(o, "l2", m) /\ Limit(o, "h2", m)
Few == {[op |-> "bump", l1 |-> -1, h1 |-> -1, l2 |-> -1, h2 |-> -1, a |-> -20000], [op |-> "bump", l1 |-> 2, h1 |-> 6, l2 |-> 3, h2 |-> 6, a |-> 10000]}
Ops == {o \in (IF Len(h) < 1 THEN {o \in BumpOps : <<o.l1, o.h1>> \in TWinsQ \/ <<o.l2, o.h2>> \in XWinsQ} ELSE Few) : Fits(o)} \cup PriceOps
Next == /\ Len(h) < Depth /\ UNCHANGED c
        /\ \E o \in Ops : /\ h' = Append(h, o)
             /\ IF o.op = "price" THEN p' = o.p /\ UNCHANGED v
                ELSE /\ UNCHANGED p
                     (* a constant volatility has one pillar: it moves as a whole, whatever the window *)
                     /\ v' = IF c.src = "constant" THEN <<<<v[1][1] + o.a>>>> ELSE Bump2(v, o.l1, o.h1, o.l2, o.h2, o.a)
Spec == Init /\ [][Next]_vars
Laws == c.src # "constant" =>
    /\ \A x \in TWinsQ, y \in XWinsQ : Bump2(Bump2(v, x[1], x[2], y[1], y[2], 500), x[1], x[2], y[1], y[2], -500) = v
    /\ \A x \in TWinsQ, y \in XWinsQ : Bump2(Bump2(v, x[1], x[2], -1, -1, 500), 2, 4, y[1], y[2], 30) = Bump2(Bump2(v, 2, 4, y[1], y[2], 30), x[1], x[2], -1, -1, 500)
(* options are asked by maturity (on a pillar, before the first, after the last, and half way when all forwards agree) and by
   where the smile is read: at the strike itself, or at the strike over the price, both relative to the surface's spot *)
RowAt(row, q) == LET k == q \div 2  n == Len(row) IN
                 IF q < 2 THEN row[1] ELSE IF q > 2 * n THEN row[n] ELSE IF q % 2 = 0 THEN row[k] ELSE (row[k] + row[k + 1]) \div 2
Places(n) == 1..(2 * n + 1)
Read(m, tq, q) == LET n == Len(m) IN
    IF tq < 2 THEN RowAt(m[1], q) ELSE IF tq > 2 * n THEN RowAt(m[n], q)
    ELSE IF tq % 2 = 0 THEN RowAt(m[tq \div 2], q) ELSE (RowAt(m[tq \div 2], q) + RowAt(m[tq \div 2 + 1], q)) \div 2
TQ(m) == {q \in Places(Len(m)) : q % 2 = 0 \/ q < 2 \/ q > 2 * Len(m) \/ ~c.rich}
Cover == Emit => PrintT("@@" \o ToJson([c |-> c, e |-> E0, ten |-> Tenors(c.g), xs |-> Xs(c.g), mkt |-> [t |-> MktT, x |-> MktX, v |-> MktV], h |-> h', v |-> v', p |-> p',
             ts |-> TimesOf(E0, Tenors(c.g)),
             q |-> IF c.src = "constant" THEN {} ELSE {[t |-> tq, x |-> q, v |-> Read(v', tq, q)] : tq \in TQ(v'), q \in Places(Len(v'[1]))}]))
TWinsB == {<<a, b>> : a \in {-1} \cup 1..10, b \in {-1} \cup 1..11}
XWinsB == XWinsQ \cup {<<a, b>> : a \in {-1, 2, 5}, b \in {3, 6, 8}}
=============================================================================
