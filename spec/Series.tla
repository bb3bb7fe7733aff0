------------------------------- MODULE Series -------------------------------
(* Daily values of an index or a price: one value per day of the market, asked for by day or by moment.
   A series is [kind, off, close, val]: the market calendar, its offset in minutes, the second of the day at which it closes, and
   the values by day (an empty sequence where there is none). *)
EXTENDS HolCal
NewSeries(kind, off, close, days) == [kind |-> kind, off |-> off, close |-> close, val |-> [n \in days |-> <<>>]]
PutDay(s, n, v) == [s EXCEPT !.val[n] = <<v>>]
(* only a day that has a value can be changed *)
ChangeDay(s, n, v) == IF s.val[n] = <<>> THEN s ELSE PutDay(s, n, v)
ReplaceAll(s, m) == [s EXCEPT !.val = [n \in DOMAIN s.val |-> IF n \in DOMAIN m THEN <<m[n]>> ELSE <<>>]]
OfDay(s, n) == IF n \in DOMAIN s.val THEN s.val[n] ELSE <<>>
(* a moment [n, s, f, o] in the time of the market; f is the number of nanoseconds after the full second *)
InMarket(s, t) == LET x == t.s + 60 * (s.off - t.o) IN [n |-> t.n + (x \div 86400), s |-> x % 86400, f |-> t.f, o |-> s.off]
(* up to the close the value is that of the day, after it that of the next day the market is open *)
DayAsked(s, t) ==
    LET x == InMarket(s, t) IN
    IF x.s > s.close \/ (x.s = s.close /\ x.f > 0)
      THEN Adjust(<<NewCal(s.kind)>>, [n |-> x.n + 1, s |-> x.s, o |-> x.o], "following").n
      ELSE x.n
Asked(s, t) == OfDay(s, DayAsked(s, t))
RECURSIVE SortedDays(_)
SortedDays(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedDays(S \ {m})
DaysOf(s) == SortedDays({n \in DOMAIN s.val : s.val[n] # <<>>})
InOrder(s) == LET d == DaysOf(s) IN [k \in 1..Len(d) |-> [n |-> d[k], v |-> s.val[d[k]][1]]]
(* the same moment told in another offset asks for the same value; the day asked for never goes back in time, unless the market is
   closed on the day of the later moment (by the calendar's own clock, which need not be that of the series) *)
SeriesLaws(s, t, u) ==
    /\ \A o \in {-720, -300, 0, 540, 840} : LET y == t.s + 60 * (o - t.o) IN
          DayAsked(s, [n |-> t.n + (y \div 86400), s |-> y % 86400, f |-> t.f, o |-> o]) = DayAsked(s, t)
    /\ LET a == InMarket(s, t)  b == InMarket(s, u) IN
          (a.n < b.n \/ (a.n = b.n /\ a.s < b.s)) => DayAsked(s, t) <= DayAsked(s, u) \/ Closed(<<NewCal(s.kind)>>, [n |-> DayAsked(s, u), s |-> a.s, o |-> a.o])
=============================================================================
