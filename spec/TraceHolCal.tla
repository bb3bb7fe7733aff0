---------------------------- MODULE TraceHolCal ----------------------------
EXTENDS HolCal, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cs, l
vars == <<cs, l>>
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
T(e) == [n |-> e.n, s |-> e.s, o |-> e.o]
TNext ==
    \/ Op("reset") /\ cs' = [i \in 1..Len(E.kinds) |-> NewCal(E.kinds[i])]
    \/ Op("add") /\ cs' = [cs EXCEPT ![E.i] = AddHoliday(@, E.n)]
    \/ Op("remove") /\ cs' = [cs EXCEPT ![E.i] = RemoveHoliday(@, E.n)]
    \* all closed days of a month, midnight of the (single) calendar's own zone
    \/ /\ Op("month") /\ UNCHANGED cs
       /\ LET f == DayNo(E.y, E.m, 1) IN
          {n \in f..(f + MonthLen(E.y, E.m) - 1) : \E i \in 1..Len(cs) : ClosedDay(cs[i], n)} = {f + E.closed[i] - 1 : i \in 1..Len(E.closed)}
    \/ /\ Op("look") /\ UNCHANGED cs
       /\ E.closed = Closed(cs, T(E)) /\ E.open = ~E.closed /\ E.weekend = WeekendAt(cs, T(E))
    \/ /\ Op("list") /\ UNCHANGED cs
       /\ E.at = Listed(cs, T(E), E.days, E.all)
    \/ /\ Op("adjust") /\ UNCHANGED cs
       /\ [n |-> E.rn, s |-> E.rs, o |-> E.ro] = Adjust(cs, T(E), E.c)
TInit == cs = <<>> /\ l = 1
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
