--------------------------- MODULE TraceOrderBook ---------------------------
(* Recorded histories of the real order book must be behaviours of OrderBook. *)
EXTENDS OrderBook, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
vars == <<book, res, l>>

Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
E == Log[l]

(* ids an L2 feed assigned to orders, as seen in the logged projection *)
IdAt(proj, p) == LET lv == CHOOSE i \in 1..Len(proj) : proj[i][1] = p
                     q == proj[lv][2] IN q[Len(q)][1]
NewIds(proj) == [p \in {proj[i][1] : i \in 1..Len(proj)} |-> IdAt(proj, p)]

SameRes(e) ==
    IF e.res.k = "diff"
    THEN /\ res'.k = "diff"
         /\ res'.ask = ToSet(e.res.ask) /\ Len(e.res.ask) = Cardinality(res'.ask)
         /\ res'.bid = ToSet(e.res.bid) /\ Len(e.res.bid) = Cardinality(res'.bid)
    ELSE res' = e.res
(* of a very long queue only now and then the whole book is recorded *)
Seen(e) == \/ "obs" \notin DOMAIN e
           \/ "panic" \notin DOMAIN e.obs /\ Proj(book') = e.obs /\ e.flags = <<>>
Check(e) == SameRes(e) /\ Seen(e)

TAdd == Op("add") /\ Add(E.s, E.p, E.q, E.id) /\ Check(E)
TLimit == Op("limit") /\ Limit(E.s, E.p, E.q, E.id) /\ Check(E)
TMarket == Op("market") /\ Market(E.s, E.q) /\ Check(E)
TCancel == Op("cancel") /\ Cancel(E.id) /\ Check(E)
TModify == Op("modify") /\ Modify(E.id, E.p, E.q) /\ Check(E)
TChange == Op("chgqty") /\ ChangeQty(E.id, E.q) /\ Check(E)
TChangePrice == Op("chgpx") /\ ChangePrice(E.s, E.id, E.p) /\ Check(E)
TRemove == Op("remove") /\ RemoveAny(E.s, E.p, E.q) /\ Check(E)
(* a snapshot for another instrument must be refused and change nothing *)
TForeign == Op("snap") /\ "foreign" \in DOMAIN E
            /\ UNCHANGED <<book, res>> /\ E.res.k = "err" /\ Seen(E)
TSnap == (Op("snap") \/ Op("snapt")) /\ "foreign" \notin DOMAIN E /\ "panic" \notin DOMAIN E.obs
         /\ DepthPrices(E.a) \subseteq DOMAIN NewIds(E.obs.ask)
         /\ DepthPrices(E.b) \subseteq DOMAIN NewIds(E.obs.bid)
         /\ Snapshot(E.a, E.b, NewIds(E.obs.ask), NewIds(E.obs.bid)) /\ Check(E) /\ WellFormed'
TDecomp == Op("decomp") /\ "panic" \notin DOMAIN E.obs
         /\ DepthPrices(E.a) \subseteq DOMAIN NewIds(E.obs.ask)
         /\ DepthPrices(E.b) \subseteq DOMAIN NewIds(E.obs.bid)
         /\ Decompose(E.a, E.b, NewIds(E.obs.ask), NewIds(E.obs.bid)) /\ Check(E) /\ WellFormed'
TReset == Op("reset") /\ book' = EmptyBook /\ res' = OkRes

TInit == BookInit /\ l = 1
TNext == TAdd \/ TLimit \/ TMarket \/ TCancel \/ TModify \/ TChange \/ TChangePrice \/ TRemove
         \/ TForeign \/ TSnap \/ TDecomp \/ TReset
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
