------------------------------ MODULE TraceNum ------------------------------
(* Random figures, spans, days and orders as the code shows them. *)
EXTENDS NumText, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
TNext ==
    \/ Op("reset")
    \/ /\ Op("figure")
       /\ (E.e < 0 /\ Tie(E.m, 1, -E.e)) \/ E.whole \in Whole(E.neg, E.m, E.e)
       /\ (E.e < 0 /\ Tie(E.m, 10, -E.e)) \/ E.tenth \in Tenth(E.neg, E.m, E.e)
    \/ Op("span") /\ E.text = Lasting(E.c)
    \/ Op("day") /\ E.int = DayInt(E.y, E.m, E.d)
    \/ Op("order") /\ E.ok = Ascending(E.x)
TInit == l = 1
TSpec == TInit /\ [][TNext]_l
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
