------------------------------- MODULE NumText -------------------------------
(* What figures look like when they are shown: groups of three digits, rounded, with their sign.
   A figure is sign * m * 2^e with m < 2^24, so that it is exactly a 32-bit float; big integers are sequences of
   groups of three digits, lowest first. *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Limbs(_), Doubled(_, _), Times2(_, _), Joined(_)
Limbs(n) == IF n < 1000 THEN <<n>> ELSE <<n % 1000>> \o Limbs(n \div 1000)
Doubled(x, c) == IF x = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                 ELSE LET d == 2 * x[1] + c IN <<d % 1000>> \o Doubled(Tail(x), d \div 1000)
Times2(x, k) == IF k = 0 THEN x ELSE Times2(Doubled(x, 0), k - 1)
Padded(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
Joined(x) == IF Len(x) = 1 THEN ToString(x[1]) ELSE Joined(Tail(x)) \o "," \o Padded(x[1])
Pow2(k) == 2 ^ k
(* m * b / 2^k to the nearest integer; no ties *)
Tie(m, b, k) == k > 0 /\ k <= 30 /\ 2 * ((m * b) % Pow2(k)) = Pow2(k)
Near(m, b, k) == IF k > 30 THEN 0 ELSE ((m * b) \div Pow2(k)) + (IF 2 * ((m * b) % Pow2(k)) > Pow2(k) THEN 1 ELSE 0)
Signed(neg, zero, t) == IF ~neg THEN {t} ELSE IF zero THEN {t, "-" \o t} ELSE {"-" \o t}
(* the texts allowed for the figure; with no digit after the point, or with one *)
Whole(neg, m, e) == IF e >= 0 THEN Signed(neg, m = 0, Joined(Times2(Limbs(m), e)))
                    ELSE LET n == Near(m, 1, -e) IN Signed(neg, n = 0, Joined(Limbs(n)))
Tenth(neg, m, e) == IF e >= 0 THEN Signed(neg, m = 0, Joined(Times2(Limbs(m), e)) \o ".0")
                    ELSE LET n == Near(m, 10, -e) IN Signed(neg, n = 0, Joined(Limbs(n \div 10)) \o "." \o ToString(n % 10))
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
(* hundredths of seconds as minutes and seconds *)
Lasting(c) == LET s == c % 6000  mn == c \div 6000
                  t == ToString(s \div 100) \o "." \o Two(s % 100) \o "s"
              IN IF mn > 0 THEN ToString(mn) \o "m " \o t ELSE t
DayInt(y, m, d) == 10000 * y + 100 * m + d
(* a period told as text, in years: a whole number of years and the seconds of the rest (a month is 30.5 days,
   a year 365.25 days); what is no period is refused *)
PeriodRest(p) == 2635200 * p[2] + 604800 * p[3] + 86400 * p[4] + 3600 * p[5] + 60 * p[6] + p[7]
YearSeconds == 31557600
Some(n, u) == IF n = 0 THEN "" ELSE ToString(n) \o u
PeriodText(p) == Some(p[1], "Y") \o Some(p[2], "M") \o Some(p[3], "W") \o Some(p[4], "D") \o Some(p[5], "h") \o Some(p[6], "min") \o Some(p[7], "sec")
NoPeriods == {"", "12", "Y", "M3", "soon", "1 Y", "1y"}
(* how often a year, and the step from one to the next *)
Often == <<<<"daily", 252, 1, "D">>, <<"weekly", 52, 1, "W">>, <<"biweekly", 26, 2, "W">>, <<"monthly", 12, 1, "M">>, <<"semiquarterly", 6, 2, "M">>,
           <<"quarterly", 4, 3, "M">>, <<"triannually", 3, 4, "M">>, <<"semiannually", 2, 6, "M">>, <<"annually", 1, 1, "Y">>>>
Step(f, k) == ToString(k * f[3]) \o f[4]
MonthNames == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
Ascending(x) == \A i \in 1..(Len(x) - 1) : x[i] <= x[i + 1]
=============================================================================
