-------------------------------- MODULE MCNum --------------------------------
(* Figures around every change of the number of digits and of groups, whole and with fractions, both signs; spans of time;
   days; orders; and results whose flows are shown day by day. *)
EXTENDS NumText, Json, SequencesExt, FiniteSets
CONSTANTS Man, Exp, Spans, Years, Lists, Flows
VARIABLES t
Ties(m, e) == e < 0 /\ (Tie(m, 1, -e) \/ Tie(m, 10, -e))
Figures == {<<neg, m, e>> \in BOOLEAN \X Man \X Exp : ~Ties(m, e) /\ (e >= 0 \/ m < 10000000)}
Fig(x) == [neg |-> x[1], m |-> x[2], e |-> x[3], whole |-> SetToSeq(Whole(x[1], x[2], x[3])), tenth |-> SetToSeq(Tenth(x[1], x[2], x[3]))]
Init == \/ \E x \in Figures : t = [k |-> "figure", x |-> Fig(x)]
        \/ \E c \in Spans : t = [k |-> "span", c |-> c, text |-> Lasting(c)]
        \/ \E y \in Years, m \in 1..12, d \in {1, 9, 10, 28}, h \in {0, 23}, o \in {-9, 0, 9} :
             t = [k |-> "day", at |-> <<y, m, d, h, o>>, int |-> DayInt(y, m, d)]
        \/ \E x \in Lists : t = [k |-> "order", x |-> x, ok |-> Ascending(x)]
        \/ \E a \in {<<FALSE, 1999, -3>>, <<TRUE, 12345678, 0>>, <<FALSE, 15, 60>>}, f \in Flows : t = [k |-> "result", npv |-> Fig(a), flows |-> [i \in 1..Len(f) |-> [id |-> f[i][1], date |-> f[i][2], amount |-> Fig(f[i][3]), prob |-> Fig(f[i][4])]]]
        \/ \E p \in [1..7 -> {0, 1, 11}] : p # [i \in 1..7 |-> 0] /\ t = [k |-> "period", text |-> PeriodText(p), years |-> p[1], rest |-> PeriodRest(p), of |-> YearSeconds]
        \/ \E x \in NoPeriods : t = [k |-> "noperiod", text |-> x]
        \/ \E f \in DOMAIN Often : t = [k |-> "often", f |-> Often[f][1], n |-> Often[f][2], steps |-> [k \in 1..13 |-> Step(Often[f], k)]]
        \/ t = [k |-> "months", names |-> MonthNames]
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
(* groups have three digits except the first, which has no leading zero; more is shown as more *)
Text(S) == CHOOSE x \in S : TRUE
RECURSIVE Value(_)
Value(x) == IF x = <<>> THEN 0 ELSE x[1] + 1000 * Value(Tail(x))
Laws ==
    /\ t.k = "figure" => LET x == t.x  l == IF x.e >= 0 THEN Times2(Limbs(x.m), x.e) ELSE Limbs(Near(x.m, 1, -x.e)) IN
           /\ \A i \in DOMAIN l : l[i] \in 0..999
           /\ Len(l) > 1 => l[Len(l)] > 0
           /\ x.e = 0 => Value(l) = x.m
           /\ (x.e >= 0 /\ x.e <= 6) => Value(l) = x.m * Pow2(x.e)
           /\ x.e < 0 => LET d == (Value(l) * Pow2(IF -x.e > 30 THEN 30 ELSE -x.e)) - x.m IN -x.e <= 20 => 2 * (IF d < 0 THEN -d ELSE d) <= Pow2(-x.e)
    /\ t.k = "often" => LET f == Often[CHOOSE i \in DOMAIN Often : Often[i][1] = t.f] IN
           f[4] = "M" => f[2] * f[3] = 12
    /\ t.k = "day" => t.int \div 10000 = t.at[1] /\ (t.int \div 100) % 100 = t.at[2] /\ t.int % 100 = t.at[3]
Cover == PrintT("@@" \o ToJson(t))
MQ == {0, 1, 3, 7, 9, 10, 19, 95, 99, 100, 101, 995, 999, 1000, 1001, 1999, 9949, 9951, 9999, 10000, 12345, 99999, 100000, 100001, 123456, 999949, 999999, 1000000, 1000001, 1234567, 9999999, 12345678, 16777215}
EQ == {-40, -24, -20, -12, -7, -5, -4, -3, -2, -1, 0, 1, 3, 10, 20, 30, 43, 60, 100}
EB == -40..104
SQ == {0, 1, 5, 99, 100, 101, 999, 1000, 5999, 6000, 6001, 6100, 11999, 12000, 59999, 60000, 359999, 360000, 366101, 999999, 6000000}
LQ == UNION {[1..n -> {1, 2, 3}] : n \in 0..4}
FlowsQ == {<<>>} \cup {<<<<3, <<2024, 1, 31>>, x, <<FALSE, 1, 0>>>>>> : x \in {<<FALSE, 1234567, 3>>, <<TRUE, 3001, -5>>} \cup {<<FALSE, 999, 0>>}}
          \cup {<<<<3, <<2024, 1, 31>>, x, <<FALSE, 1, 0>>>>, <<12, <<2023, 12, 1>>, y, <<FALSE, 7, -5>>>>, <<100, <<2025, 2, 28>>, x, <<FALSE, 0, 0>>>>>> :
                  x \in {<<FALSE, 1234567, 3>>, <<TRUE, 1000000, 0>>}, y \in {<<FALSE, 999, 0>>, <<TRUE, 1001, 10>>}}
=============================================================================
