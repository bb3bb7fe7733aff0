------------------------------- MODULE Civil -------------------------------
(* The proleptic Gregorian calendar on day numbers (day 0 = 1970-01-01). *)
EXTENDS Integers
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> (IF IsLeap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
YearLen(y) == IF IsLeap(y) THEN 366 ELSE 365
DaysBeforeYear(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 1969 \div 4) - ((y - 1) \div 100 - 1969 \div 100)
                     + ((y - 1) \div 400 - 1969 \div 400)
MonthStart == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBeforeMonth(y, m) == MonthStart[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
DayNo(y, m, d) == DaysBeforeYear(y) + DaysBeforeMonth(y, m) + d - 1
YearOf(n) == LET g == 1970 + n \div (IF n >= 0 THEN 366 ELSE 365) IN
             IF DaysBeforeYear(g + 1) > n THEN g
             ELSE CHOOSE y \in g..(g + 3) : DaysBeforeYear(y) <= n /\ n < DaysBeforeYear(y + 1)
Civ(n) == LET y == YearOf(n)
              r == n - DaysBeforeYear(y)
              m == CHOOSE k \in 1..12 : DaysBeforeMonth(y, k) <= r /\ (k = 12 \/ r < DaysBeforeMonth(y, k + 1))
          IN <<y, m, r - DaysBeforeMonth(y, m) + 1>>
(* 0 = Monday .. 6 = Sunday; 1970-01-01 was a Thursday *)
Weekday(n) == (n + 3) % 7
Succ(c) == IF c[3] < MonthLen(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>>
           ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>
=============================================================================
