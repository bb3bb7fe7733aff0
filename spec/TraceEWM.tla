------------------------------ MODULE TraceEWM ------------------------------
(* Recorded streams.  Long streams are followed in fixed point (scale One): halving rounds down, so the
   specification's value may be up to Tol below the exact one. *)
EXTENDS EWM, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Tol
VARIABLE l
vars == <<evars, l>>
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
Near(a, b) == a - b <= Tol /\ b - a <= Tol
TNext == \/ Op("reset") /\ Reset(E.r, E.a0)
         \/ /\ Op("obs")
            /\ avg' = Decay(r, avg, E.d) + (E.x * One - Decay(r, E.x * One, E.d))
            /\ sum' = Decay(r, sum, E.d) + E.x * One
            /\ at' = at + E.d /\ UNCHANGED <<r, a0, obs>>
            /\ Near(avg', E.avg) /\ Near(sum', E.sum)
TInit == EInit(0, 0) /\ l = 1
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
