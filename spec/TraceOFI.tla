------------------------------ MODULE TraceOFI ------------------------------
(* Recorded histories of one feature fed by random snapshots, depth up to ten. *)
EXTENDS OFI, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<feat, l>>
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
\* x is v * 100, rounded
Close(x, v) == IF v.have THEN x.have /\ x.v * v.den - 100 * v.num <= v.den /\ 100 * v.num - x.v * v.den <= v.den
               ELSE ~x.have
Holds(f) == /\ E.feat = f
            /\ LET P == Prices(f) IN
               /\ Close(E.prices.bid, P.bid) /\ Close(E.prices.ask, P.ask) /\ Close(E.prices.mid, P.mid)
               /\ P.vwapopen \/ Close(E.prices.vwap, P.vwap)
TNext == \/ Op("reset") /\ feat' = Empty(0)
         \/ Op("new") /\ feat' = FromData(E.d) /\ Holds(feat')
         \/ Op("cap") /\ feat' = Empty(E.n) /\ Holds(feat')
         \/ Op("upd") /\ feat' = Updated(feat, E.d) /\ E.ok = Accepts(feat, E.d) /\ Holds(feat')
         \/ Op("arr") /\ UNCHANGED feat
            /\ LET g == FromData(E.d) IN
               /\ Len(E.flow) = 13
               /\ \A i \in 0..12 : LET x == E.flow[i + 1] IN
                    IF LevelOk(feat, g, i) THEN x.ok /\ x.f = Flow(feat, g, i) ELSE ~x.ok
TInit == feat = Empty(0) /\ l = 1
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
