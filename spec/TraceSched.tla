----------------------------- MODULE TraceSched -----------------------------
EXTENDS Sched, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
TNext ==
    \/ Op("reset")
    \/ /\ Op("build")
       /\ LET cs == [i \in 1..Len(E.kinds) |-> NewCal(E.kinds[i])]
              r == Build(E.fwd, E.eff, E.mat, cs, E.c, E.f, E.fg, E.pg) IN
          /\ r.ok = E.ok
          /\ Len(r.rows) = Len(E.rows)
          /\ \A i \in 1..Len(E.rows) : r.rows[i] = E.rows[i]
TInit == l = 1
TSpec == TInit /\ [][TNext]_l
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
