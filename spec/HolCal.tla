------------------------------- MODULE HolCal -------------------------------
(* Which days each market is closed, from the published rules, and business-day adjustment.
   A calendar is [kind, added, removed]; days are local day numbers of the calendar's own time zone. *)
EXTENDS Civil, Sequences, FiniteSets
Kinds == {"null", "us_settlement", "us_nyse", "us_gov", "us_fed", "us_sofr", "kr_settlement", "kr_krx"}
Mon == 0 Tue == 1 Wed == 2 Thu == 3 Fri == 4 Sat == 5 Sun == 6
(* the k-th weekday w of a month; the last weekday w of a month *)
Nth(y, m, w, k) == LET f == DayNo(y, m, 1) IN f + ((w - Weekday(f)) % 7) + 7 * (k - 1)
LastOf(y, m, w) == LET e == DayNo(y, m, MonthLen(y, m)) IN e - ((Weekday(e) - w) % 7)
(* a holiday on a fixed date, observed on Monday when it falls on Sunday, and on Friday when it falls on Saturday *)
SunToMon(n) == IF Weekday(n) = Sun THEN n + 1 ELSE n
Observed(n) == IF Weekday(n) = Sun THEN n + 1 ELSE IF Weekday(n) = Sat THEN n - 1 ELSE n
(* Easter Sunday (anonymous Gregorian computus) *)
Easter(y) ==
    LET a == y % 19  b == y \div 100  c == y % 100  d == b \div 4  e == b % 4
        f == (b + 8) \div 25  g == (b - f + 1) \div 3  h == (19 * a + b - d - g + 15) % 30
        i == c \div 4  k == c % 4  l == (32 + 2 * e + 2 * i - h - k) % 7
        m == (a + 11 * h + 22 * l) \div 451
    IN DayNo(y, (h + l - 7 * m + 114) \div 31, ((h + l - 7 * m + 114) % 31) + 1)
GoodFriday(y) == Easter(y) - 2
Day(m, d) == [m |-> m, d |-> d]
NewYear(y) == DayNo(y, 1, 1)
King(y, from) == IF y >= from THEN {Nth(y, 1, Mon, 3)} ELSE {}
Washington(y) == IF y >= 1971 THEN Nth(y, 2, Mon, 3) ELSE Observed(DayNo(y, 2, 22))
Memorial(y) == IF y >= 1971 THEN LastOf(y, 5, Mon) ELSE Observed(DayNo(y, 5, 30))
Juneteenth(y) == IF y >= 2022 THEN {DayNo(y, 6, 19)} ELSE {}
Independence(y) == DayNo(y, 7, 4)
Labor(y) == Nth(y, 9, Mon, 1)
Columbus(y) == IF y >= 1971 THEN {Nth(y, 10, Mon, 2)} ELSE {}
Veterans(y) == IF y >= 1971 /\ y <= 1977 THEN Nth(y, 10, Mon, 4) ELSE SunToMon(DayNo(y, 11, 11))
Thanksgiving(y) == Nth(y, 11, Thu, 4)
Christmas(y) == DayNo(y, 12, 25)
ObsSet(S) == {Observed(n) : n \in S}
SunSet(S) == {SunToMon(n) : n \in S}
Election(y) == IF y <= 1968 \/ (y <= 1980 /\ y % 4 = 0) THEN {Nth(y, 11, Mon, 1) + 1} ELSE {}
NyseSpecial(y) == {DayNo(y, x[2], x[3]) : x \in {q \in
    {<<2018, 12, 5>>, <<2012, 10, 29>>, <<2012, 10, 30>>, <<2007, 1, 2>>, <<2004, 6, 11>>, <<2001, 9, 11>>, <<2001, 9, 12>>,
     <<2001, 9, 13>>, <<2001, 9, 14>>, <<1994, 4, 27>>, <<1985, 9, 27>>, <<1977, 7, 14>>, <<1973, 1, 25>>, <<1972, 12, 28>>,
     <<1969, 7, 21>>, <<1969, 3, 31>>, <<1969, 2, 10>>, <<1968, 7, 5>>, <<1968, 4, 9>>, <<1963, 11, 25>>, <<1961, 5, 29>>,
     <<1958, 12, 26>>, <<1954, 12, 24>>, <<1956, 12, 24>>, <<1965, 12, 24>>} : q[1] = y}}
    \cup (IF y = 1968 THEN {n \in DayNo(1968, 6, 11)..DayNo(1968, 12, 31) : Weekday(n) = Wed} ELSE {})
GovSpecial(y) == {DayNo(y, x[2], x[3]) : x \in {q \in {<<2018, 12, 5>>, <<2012, 10, 30>>, <<2004, 6, 11>>} : q[1] = y}}
(* the closed weekdays of the year y for each market; the day before a Saturday New Year belongs to the old year *)
UsClosed(k, y) ==
    CASE k = "us_settlement" ->
           {SunToMon(NewYear(y)), Washington(y), Memorial(y), Labor(y), Veterans(y), Thanksgiving(y)} \cup King(y, 1983) \cup Columbus(y)
           \cup ObsSet({Independence(y), Christmas(y)} \cup Juneteenth(y)) \cup {n \in {NewYear(y + 1) - 1} : Weekday(n) = Fri}
      [] k = "us_nyse" ->
           {SunToMon(NewYear(y)), Washington(y), GoodFriday(y), Memorial(y), Labor(y), Thanksgiving(y)} \cup King(y, 1998)
           \cup ObsSet({Independence(y), Christmas(y)} \cup Juneteenth(y)) \cup Election(y) \cup NyseSpecial(y)
      [] k \in {"us_gov", "us_sofr"} ->
           {SunToMon(NewYear(y)), Washington(y), Memorial(y), Labor(y), Veterans(y), Thanksgiving(y)} \cup King(y, 1983) \cup Columbus(y)
           \cup ObsSet({Independence(y), Christmas(y)} \cup Juneteenth(y)) \cup GovSpecial(y)
           \cup (IF k = "us_gov" /\ y \in {2015, 2021, 2023} THEN {} ELSE {GoodFriday(y)})
      [] k = "us_fed" ->
           {Washington(y), Memorial(y), Labor(y), Veterans(y), Thanksgiving(y)} \cup King(y, 1983) \cup Columbus(y)
           \cup SunSet({NewYear(y), Independence(y), Christmas(y)} \cup Juneteenth(y))
(* lunar holidays, 1951 to 2050, as days of the year (from an independent lunar calendar) *)
LunarNewYear == <<37, 27, 45, 35, 24, 43, 31, 50, 39, 28, 46, 36, 25, 44, 33, 22, 40, 30, 48, 37,
   27, 46, 34, 23, 42, 31, 49, 38, 28, 47, 36, 25, 44, 33, 51, 40, 29, 49, 37, 27,
   46, 35, 23, 41, 31, 50, 39, 28, 47, 36, 24, 43, 32, 22, 40, 29, 49, 38, 26, 45,
   34, 23, 41, 31, 50, 39, 28, 47, 36, 25, 43, 32, 22, 41, 29, 48, 38, 27, 44, 34,
   23, 42, 31, 50, 39, 28, 46, 35, 24, 43, 32, 22, 41, 30, 48, 37, 26, 45, 33, 23>>
Buddha == <<133, 122, 140, 130, 149, 138, 127, 146, 135, 124, 142, 131, 121, 140, 128, 147, 136, 126, 143, 132,
   122, 141, 130, 119, 138, 127, 145, 134, 123, 142, 131, 121, 140, 129, 147, 136, 125, 144, 132, 122,
   141, 131, 148, 138, 127, 145, 134, 123, 142, 132, 121, 139, 128, 147, 135, 125, 144, 133, 122, 141,
   130, 149, 137, 126, 145, 135, 123, 142, 132, 121, 139, 128, 147, 136, 125, 144, 133, 123, 140, 129,
   148, 137, 126, 145, 135, 124, 142, 131, 120, 139, 127, 146, 136, 126, 144, 133, 122, 141, 129, 148>>
Chuseok == <<258, 277, 265, 254, 273, 263, 251, 270, 260, 279, 267, 256, 275, 264, 253, 272, 261, 280, 269, 258,
   276, 266, 254, 273, 263, 252, 270, 260, 278, 267, 255, 274, 264, 254, 272, 261, 280, 269, 257, 276,
   265, 255, 273, 263, 252, 271, 259, 278, 267, 256, 274, 264, 254, 272, 261, 279, 268, 258, 276, 265,
   255, 274, 262, 251, 270, 259, 277, 267, 256, 275, 264, 253, 272, 261, 279, 268, 258, 277, 265, 255,
   274, 263, 251, 270, 259, 278, 267, 256, 275, 265, 253, 271, 260, 279, 268, 258, 277, 266, 254, 273>>
KrFixed == {<<1, 1>>, <<3, 1>>, <<5, 1>>, <<5, 5>>, <<6, 6>>, <<8, 15>>, <<10, 3>>, <<10, 9>>, <<12, 25>>}
KrSubstitute == {<<2023, 1, 24>>, <<2023, 5, 29>>, <<2023, 10, 2>>, <<2024, 2, 12>>, <<2024, 5, 6>>}
LastWeekday(y) == LET e == DayNo(y, 12, 31) IN IF Weekday(e) = Sat THEN e - 1 ELSE IF Weekday(e) = Sun THEN e - 2 ELSE e
KrClosed(k, y) ==
    LET o(t) == DaysBeforeYear(y) + t[y - 1950] - 1 IN
    {DayNo(y, x[1], x[2]) : x \in KrFixed} \cup {DayNo(y, x[2], x[3]) : x \in {q \in KrSubstitute : q[1] = y}}
    \cup {o(LunarNewYear) + j : j \in {-1, 0, 1}} \cup {o(Buddha)} \cup {o(Chuseok) + j : j \in {-1, 0, 1}}
    \cup (IF k = "kr_krx" THEN {LastWeekday(y)} ELSE {})
RuleYear(k, y) == IF k = "null" THEN TRUE ELSE IF k \in {"kr_settlement", "kr_krx"} THEN y \in 1951..2050 ELSE y \in 1951..2199
(* computed once *)
KrDays == [k \in {"kr_settlement", "kr_krx"} |-> [y \in 1951..2050 |-> KrClosed(k, y)]]
UsDays == [k \in {"us_settlement", "us_nyse", "us_gov", "us_fed", "us_sofr"} |-> [y \in 1951..2199 |-> UsClosed(k, y)]]
Base(k, n) == CASE k = "null" -> FALSE
                [] k \in {"kr_settlement", "kr_krx"} -> n \in KrDays[k][YearOf(n)]
                [] OTHER -> n \in UsDays[k][YearOf(n)]
Weekend(n) == Weekday(n) \in {Sat, Sun}
(* weekends are always closed; then removed days are open, base and added holidays closed *)
ClosedDay(c, n) == Weekend(n) \/ (n \notin c.removed /\ (n \in c.added \/ Base(c.kind, n)))
NewCal(k) == [kind |-> k, added |-> {}, removed |-> {}]
AddHoliday(c, n) == IF c.kind = "null" THEN c ELSE [c EXCEPT !.added = @ \cup {n}]
RemoveHoliday(c, n) == IF c.kind = "null" THEN c ELSE [c EXCEPT !.removed = @ \cup {n}]
(* an instant: local day n, second s, offset o in minutes; each calendar looks at it in its own zone *)
Zone(k, o) == IF k = "null" THEN o ELSE IF k \in {"kr_settlement", "kr_krx"} THEN 540 ELSE -300
LocalDay(k, t) == t.n + ((t.s + 60 * (Zone(k, t.o) - t.o)) \div 86400)
Closed(cs, t) == \E i \in 1..Len(cs) : ClosedDay(cs[i], LocalDay(cs[i].kind, t))
WeekendAt(cs, t) == \E i \in 1..Len(cs) : Weekend(LocalDay(cs[i].kind, t))
(* the closed times listed day by day from a time, with or without weekends *)
Listed(cs, t, days, all) == SelectSeq([d \in 1..(days + 1) |-> d - 1], LAMBDA d : LET x == [t EXCEPT !.n = @ + d] IN Closed(cs, x) /\ (all \/ ~WeekendAt(cs, x)))
(* business-day adjustment over a joint calendar *)
At(t, n) == [t EXCEPT !.n = n]
RECURSIVE Fwd(_, _), Bwd(_, _)
Fwd(cs, t) == IF Closed(cs, t) THEN Fwd(cs, At(t, t.n + 1)) ELSE t
Bwd(cs, t) == IF Closed(cs, t) THEN Bwd(cs, At(t, t.n - 1)) ELSE t
SameMonth(a, b) == LET x == Civ(a.n)  y == Civ(b.n) IN x[1] = y[1] /\ x[2] = y[2]
Convs == {"unadjusted", "following", "preceding", "modfollowing", "modpreceding"}
Adjust(cs, t, c) ==
    CASE c = "unadjusted" -> t
      [] c = "following" -> Fwd(cs, t)
      [] c = "preceding" -> Bwd(cs, t)
      [] c = "modfollowing" -> LET r == Fwd(cs, t) IN IF r = t \/ SameMonth(r, t) THEN r ELSE Bwd(cs, t)
      [] c = "modpreceding" -> LET r == Bwd(cs, t) IN IF r = t \/ SameMonth(r, t) THEN r ELSE Fwd(cs, t)
AdjustLaws(cs, t) ==
    /\ \A c \in Convs \ {"unadjusted"} : ~Closed(cs, Adjust(cs, t, c)) /\ (~Closed(cs, t) => Adjust(cs, t, c) = t)
    /\ \A d \in t.n..(Adjust(cs, t, "following").n - 1) : Closed(cs, At(t, d))
    /\ \A d \in (Adjust(cs, t, "preceding").n + 1)..t.n : Closed(cs, At(t, d))
=============================================================================
