------------------------------- MODULE Tenor -------------------------------
(* Tenor arithmetic on local wall-clock times.  A time is [n |-> day number, s |-> second of the day].
   A tenor is a sequence of parts [u |-> unit, k |-> count], applied in the written order. *)
EXTENDS Civil, Sequences
Units == {"Y", "M", "W", "D", "h", "min", "sec"}
Min2(a, b) == IF a < b THEN a ELSE b
(* k calendar months later (earlier for negative k): the last day of the month when that day does not exist *)
MonthShift(n, k) ==
    LET c == Civ(n)
        t == c[1] * 12 + (c[2] - 1) + k
        y == t \div 12
        m == (t % 12) + 1
    IN DayNo(y, m, Min2(c[3], MonthLen(y, m)))
SecShift(x, d) == LET t == x.s + d IN [n |-> x.n + (t \div 86400), s |-> t % 86400]
Shift(x, u, k) ==
    CASE u = "Y" -> [x EXCEPT !.n = MonthShift(x.n, 12 * k)]
      [] u = "M" -> [x EXCEPT !.n = MonthShift(x.n, k)]
      [] u = "W" -> [x EXCEPT !.n = @ + 7 * k]
      [] u = "D" -> [x EXCEPT !.n = @ + k]
      [] u = "h" -> LET q == [x EXCEPT !.n = @ + ((IF k < 0 THEN -1 ELSE 1) * ((IF k < 0 THEN -k ELSE k) \div 24))]
                    IN SecShift(q, (IF k < 0 THEN -1 ELSE 1) * 3600 * ((IF k < 0 THEN -k ELSE k) % 24))
      [] u = "min" -> SecShift(x, 60 * k)
      [] u = "sec" -> SecShift(x, k)
RECURSIVE Move(_, _, _)
Move(x, ps, sign) == IF ps = <<>> THEN x ELSE Move(Shift(x, Head(ps).u, sign * Head(ps).k), Tail(ps), sign)

(* The documented defect of sub_period_date (pinned by one of its unit tests): months that reach back
   beyond the start of the previous year are taken off one year short for every further year begun. *)
LateShift(x, u, k) ==
    IF u # "M" THEN Shift(x, u, -k)
    ELSE LET c == Civ(x.n)
             t == (c[2] - 1) - k + 12
             q == IF t >= 0 THEN t \div 12 ELSE -((-t) \div 12)
             y == c[1] - 1 + q
             m == ((c[2] - 1 - k) % 12) + 1
         IN [x EXCEPT !.n = DayNo(y, m, Min2(c[3], MonthLen(y, m)))]
RECURSIVE LateMove(_, _)
LateMove(x, ps) == IF ps = <<>> THEN x ELSE LateMove(LateShift(x, Head(ps).u, Head(ps).k), Tail(ps))

(* laws the definitions above must satisfy *)
MonthIndex(n) == LET c == Civ(n) IN c[1] * 12 + c[2]
ShiftLaws(x, u, k) ==
    LET y == Shift(x, u, k) IN
    /\ y.s \in 0..86399
    /\ u \in {"Y", "M"} =>
         /\ y.s = x.s
         /\ MonthIndex(y.n) = MonthIndex(x.n) + (IF u = "Y" THEN 12 ELSE 1) * k
         /\ LET a == Civ(x.n)  b == Civ(y.n) IN b[3] = a[3] \/ (b[3] < a[3] /\ b[3] = MonthLen(b[1], b[2]))
    /\ u \in {"W", "D"} => y.s = x.s
    /\ u \notin {"Y", "M"} => Shift(y, u, -k) = x
=============================================================================
