----------------------------- MODULE TraceTenor -----------------------------
(* A clock moved by random tenors: what the real code answered must be a walk of the specification. *)
EXTENDS Tenor, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES x, l
vars == <<x, l>>
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
DateOnly(t) == \A i \in 1..Len(t) : t[i].u \in {"Y", "M", "W", "D"}
TNext ==
    \/ Op("reset") /\ x' = [n |-> E.n, s |-> E.s]
    \/ /\ Op("move")
       /\ x' = Move(x, E.t, E.sg)
       /\ E.n = x'.n /\ E.s = x'.s
       /\ DateOnly(E.t) => \/ E.dn = x'.n
                           \/ E.sg = -1 /\ E.dn = LateMove(x, E.t).n /\ PrintT("KNOWN C24-sub_period_date-late-year")
TInit == x = [n |-> 0, s |-> 0] /\ l = 1
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
