---------------------------- MODULE MCDayCount ----------------------------
(* An interval that grows and shrinks at both ends over the interesting days of a few years. *)
EXTENDS DayCount, Json, TLC
CONSTANTS Years, Far, Emit
VARIABLES a, b
vars == <<a, b>>
Days == UNION {{DayNo(y, m, d) : m \in {1, 2, 3, 6, 7, 12}, d \in {1, 2, 28}} \cup
               {DayNo(y, m, MonthLen(y, m)) : m \in 1..12} \cup {DayNo(y, m, MonthLen(y, m) - 1) : m \in {1, 2, 11, 12}} : y \in Years}
        \cup UNION {{DayNo(y, 1, 1), DayNo(y, 2, 28), DayNo(y, 12, 31)} : y \in Far}
Secs == {0, 32400, 86399}
Times == {[n |-> d, s |-> s] : d \in Days, s \in Secs}
Init == a \in Times /\ b = a
Next == b = a /\ b' \in Times /\ NotAfter(a, b') /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
Fracs(x, y) == [c \in Convs |-> Frac(c, x, y)]
Laws == b = a => \A k \in Convs : Frac(k, a, a) = 0
Adds == a.s = 0 /\ b.s = 0 => \A d \in {x \in Days : x >= a.n /\ x <= b.n} : Additive(a, [n |-> d, s |-> 0], b)
Unit == \A y \in Years : \A k \in 1..3 : WholeYears(y, k)
Cover == Emit => PrintT("@@" \o ToJson([a |-> a, b |-> b', f |-> Fracs(a, b'), t |-> Time(a, b'), tol |-> Tol(a, b'), tt |-> TimeTol(a, b')]))
=============================================================================
