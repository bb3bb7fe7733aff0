------------------------------ MODULE TraceKrx ------------------------------
(* A recorded random feed: every message decoded, afresh or into a buffer, and what was seen then. *)
EXTENDS KrxMsg, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<kvars, l>>
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
Same(r, e) ==
    /\ DOMAIN r = DOMAIN e
    /\ \A k \in DOMAIN r \ {"ask", "bid"} : r[k] = e[k]
    /\ \A k \in DOMAIN r \cap {"ask", "bid"} : Len(r[k]) = Len(e[k]) /\ \A i \in 1..Len(r[k]) : r[k][i] = e[k][i]
TNext == \/ Op("reset") /\ buf' = [k \in Kinds |-> Empty] /\ cap' = [k \in Kinds |-> E.cap]
         \/ Op("code") /\ E.tr \in TrCodes[E.iface] /\ UNCHANGED kvars
         \/ Op("codes") /\ E.n = Cardinality(UNION {{<<f, t>> : t \in TrCodes[f]} : f \in DOMAIN TrCodes}) /\ UNCHANGED kvars
         \/ Op("decode") /\ E.buf /\ Into(E.iface, E.cut, E.cum, E.msg)
                         /\ E.ok = Accepts(E.iface, E.cut, E.msg) /\ Same(buf'[Kind(E.iface)], E.seen)
         \/ Op("decode") /\ ~E.buf /\ UNCHANGED kvars
                         /\ E.ok = WellFormed(E.iface, E.msg)
                         /\ Same(IF E.ok THEN Decode(E.iface, E.cut, E.cum, E.msg) ELSE Empty, E.seen)
TInit == KInit(10) /\ l = 1
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
