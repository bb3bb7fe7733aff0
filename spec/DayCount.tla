------------------------------ MODULE DayCount ------------------------------
(* Year fractions, in parts per million of a year (rounded down).  A time is [n |-> local day, s |-> second],
   both ends in the same offset. *)
EXTENDS Civil, Sequences
Ppm(num, den) == (num \div den) * 1000000 + ((num % den) * 1000000) \div den
(* whole days from a to b *)
WholeDays(a, b) == (b.n - a.n) + (IF b.s < a.s THEN -1 ELSE 0)
NotAfter(a, b) == a.n < b.n \/ (a.n = b.n /\ a.s <= b.s)
D30(a, b) == 360 * (b[1] - a[1]) + 30 * (b[2] - a[2]) + (b[3] - a[3])
(* a 31st at the start counts as the 30th, and then a 31st at the end does too *)
Street(a, b) == IF a[3] = 31 THEN D30(<<a[1], a[2], 30>>, <<b[1], b[2], IF b[3] = 31 THEN 30 ELSE b[3]>>) ELSE D30(a, b)
(* days of [m, n) falling in each year over the length of that year *)
ActAct(m, n) ==
    LET y == YearOf(m)  z == YearOf(n) IN
    IF y = z THEN Ppm(n - m, YearLen(y))
    ELSE Ppm(DaysBeforeYear(y + 1) - m, YearLen(y)) + (z - y - 1) * 1000000 + Ppm(n - DaysBeforeYear(z), YearLen(z))
Frac(c, a, b) ==
    CASE c = "act365" -> Ppm(WholeDays(a, b), 365)
      [] c = "act360" -> Ppm(WholeDays(a, b), 360)
      [] c = "act364" -> Ppm(WholeDays(a, b), 364)
      [] c = "30360"  -> Ppm(D30(Civ(a.n), Civ(b.n)), 360)
      [] c = "street" -> Ppm(Street(Civ(a.n), Civ(b.n)), 360)
      [] c = "actact" -> IF YearOf(a.n) = YearOf(b.n) THEN ActAct(a.n, a.n + WholeDays(a, b)) ELSE ActAct(a.n, b.n)
(* the exact time between two instants: as act/act, to the second *)
SecPpm(s, y) == (s * 1000) \div (IF IsLeap(y) THEN 31623 ELSE 31536)
Time(a, b) == ActAct(a.n, b.n) - SecPpm(a.s, YearOf(a.n)) + SecPpm(b.s, YearOf(b.n))
Convs == {"act365", "act360", "act364", "30360", "street", "actact"}
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
(* the real results are 32-bit floats *)
Tol(a, b) == 3 + (b.n - a.n) \div 1500
(* exact times: the day on which the year turns may be counted with either year's length *)
TimeTol(a, b) == Tol(a, b) + (IF YearOf(a.n) # YearOf(b.n) THEN 8 ELSE 0)
(* laws *)
Additive(a, b, c) == \A k \in {"act365", "act360", "act364", "30360", "actact"} :
    a.s = b.s /\ b.s = c.s => Near(Frac(k, a, c), Frac(k, a, b) + Frac(k, b, c), 3)
WholeYears(y, k) == Frac("actact", [n |-> DayNo(y, 1, 1), s |-> 0], [n |-> DayNo(y + k, 1, 1), s |-> 0]) = k * 1000000
=============================================================================
