---------------------------- MODULE TraceCounter ----------------------------
(* Recorded draws of real threads, as seen by the observer of Counter. *)
EXTENDS Counter, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<cvars, ovars, l>>
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
Same == UNCHANGED <<next, st, val, log>>
TNext == /\ Same
         /\ \/ Op("reset") /\ last' = E.last /\ mayNext' = 0 /\ owed' = {} /\ low' = [t \in Threads |-> -1]
            \/ Op("call") /\ OCall(E.t) /\ UNCHANGED last
            \/ Op("ret") /\ ORet(E.t, E.v >= 0, E.v, last) /\ UNCHANGED last
            \/ Op("end") /\ owed = {} /\ Pending(low) = {} /\ mayNext = E.n /\ UNCHANGED <<last, ovars>>
TInit == CInit(0) /\ OInit /\ l = 1
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
