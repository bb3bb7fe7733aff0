---------------------------- MODULE TraceDayRoll ----------------------------
(* Recorded feeds, and recorded renderings of instants as local date and time. *)
EXTENDS DayRoll, Civil, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<dvars, l>>
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
Seen == E.base = base' /\ E.ts = ts' /\ E.prev = prev'
(* local date and time of <<day, sec>> at a whole-hour offset *)
Local(d, s, off) == Norm(d, s + off * 3600, 0)
Rendered == LET x == Local(E.i[1], E.i[2], E.off) IN
            /\ <<E.y, E.mo, E.dd>> = Civ(x[1])
            /\ <<E.hh, E.mi, E.ss>> = <<x[2] \div 3600, (x[2] % 3600) \div 60, x[2] % 60>>
            /\ <<E.ms, E.us, E.ns>> = E.frac
            /\ E.utc = Civ(E.i[1])
            /\ E.comp = <<E.i[2] \div 3600, (E.i[2] % 3600) \div 60, E.i[2] % 60, E.frac[1]>>
            /\ E.fmt
TNext == \/ Op("feed") /\ Feed(E.s, E.u, E.off) /\ Seen
         \/ Op("set") /\ SetTimestamp(E.i) /\ Seen
         \/ Op("cache") /\ Cache(E.i) /\ Seen
         \/ Op("incr") /\ Increment /\ Seen
         \/ Op("reset") /\ Restart(E.i) /\ Seen
         \/ Op("render") /\ Rendered /\ UNCHANGED dvars
TInit == DInit(0) /\ l = 1
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
