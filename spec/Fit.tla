--------------------------------- MODULE Fit ---------------------------------
(* Which parts make an object and which are refused.  A constructor answers "ok", or "no": an error, never a crash and never an
   object that misplaces its data.  "open" is left to the code (equal pillars, disorder in what is not used).
   Days and pillars are integers; <<>> as an optional part is its absence, <<x>> its presence. *)
EXTENDS Integers, Sequences
Asc(x) == \A i \in 1..(Len(x) - 1) : x[i] <= x[i + 1]
Strict(x) == \A i \in 1..(Len(x) - 1) : x[i] < x[i + 1]
Grid(x) == IF ~Asc(x) THEN "no" ELSE IF Strict(x) THEN "ok" ELSE "open"
Both(a, b) == IF "no" \in {a, b} THEN "no" ELSE IF "open" \in {a, b} THEN "open" ELSE "ok"
If(c) == IF c THEN "ok" ELSE "no"
(* a list of figures with days or times: days win, and need a day to count from *)
Vector(n, days, times, market) ==
    IF days # <<>> THEN If(Len(days[1]) = n /\ market # <<>>)
    ELSE If(times # <<>> /\ Len(times[1]) = n)
VectorFrom(days) == IF days # <<>> THEN "days" ELSE "times"
(* one and two dimensional grids *)
Line(d, n) == Both(If(Len(d) = n /\ d # <<>>), Grid(d))
Rows(t, n) == Line(t, n)
Sheet(t, x, r, c) == Both(If(Len(t) >= 2 /\ Len(x) >= 2 /\ r = Len(t) /\ c = Len(x)), Both(Grid(t), Grid(x)))
Put(n, m) == If(n = m)
(* market data *)
Curve(times) == IF times = <<>> THEN "no" ELSE Grid(times)
Future(days, e) == SelectSeq(days, LAMBDA d : d > e)
Dividend(days, e) == IF days = <<>> THEN "no" ELSE IF days[1] = <<>> THEN "no"
                     ELSE IF ~Asc(Future(days[1], e)) THEN "no"
                     ELSE IF Strict(days[1]) THEN "ok" ELSE "open"
Surface(spot, days, strikes, r, c, ten, e) ==
    Both(If(spot # <<>> /\ (\A i \in 1..Len(days) : days[i] >= e) /\ Asc(ten)), Sheet(days, strikes, r, c))
Bump(from, to) == If(from = <<>> \/ to = <<>> \/ from[1] <= to[1])
(* instruments *)
Bond(rate, index) == If(rate # index)
Futures(maturity, days) == If(\A i \in 1..Len(days) : days[i] = <<maturity>>)
Joint(n) == If(n > 0)
Schedule(fixing, payment) == If(fixing >= 0 /\ payment >= 0)
=============================================================================
