--------------------------- MODULE TraceDayCount ---------------------------
EXTENDS DayCount, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
TNext ==
    \/ Op("reset")
    \/ /\ Op("frac")  \* any two instants
       /\ \A c \in Convs :
            LET r == E.f[c] IN
            IF NotAfter(E.a, E.b) THEN r.ok /\ Near(r.v, Frac(c, E.a, E.b), Tol(E.a, E.b)) ELSE ~r.ok
       /\ IF NotAfter(E.a, E.b) THEN Near(E.t, Time(E.a, E.b), TimeTol(E.a, E.b))
          ELSE Near(-E.t, Time(E.b, E.a), TimeTol(E.b, E.a))
TInit == l = 1
TSpec == TInit /\ [][TNext]_l
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
