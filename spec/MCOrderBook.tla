---------------------------- MODULE MCOrderBook ----------------------------
(* Exhaustive small-constant model of OrderBook (order-by-order interface). *)
EXTENDS OrderBook, Json

CONSTANTS Px, Qty, MaxLive, RawAdds, MaxLevelOps, Emit

VARIABLE hist
vars == <<book, res, hist>>

FreshId == CHOOSE i \in 1..(MaxLive + 1) :
              i \notin LiveIds(book) /\ \A j \in 1..(i-1) : j \in LiveIds(book)
Ids == 1..(MaxLive + 1)
Room == Cardinality(LiveIds(book)) < MaxLive

Log(rec) == hist' = Append(hist, rec)

Init == BookInit /\ hist = <<>>

DoAdd == RawAdds /\ Room /\ \E s \in Sides, p \in Px, q \in Qty :
            Add(s, p, q, FreshId) /\ Log([op |-> "add", s |-> s, p |-> p, q |-> q, id |-> FreshId])
DoLimit == Room /\ \E s \in Sides, p \in Px, q \in Qty :
            Limit(s, p, q, FreshId) /\ Log([op |-> "limit", s |-> s, p |-> p, q |-> q, id |-> FreshId])
DoMarket == \E s \in Sides, q \in Qty :
            Market(s, q) /\ Log([op |-> "market", s |-> s, q |-> q])
DoCancel == \E id \in Ids : Cancel(id) /\ Log([op |-> "cancel", id |-> id])
DoModify == \E id \in Ids, p \in Px, q \in Qty \cup {0} :
            /\ (q = 0 => (id \in LiveIds(book) => PriceOf(book, id) = p))
            /\ Modify(id, p, q) /\ Log([op |-> "modify", id |-> id, p |-> p, q |-> q])
DoChange == \E id \in Ids, q \in Qty \cup {0} :
            ChangeQty(id, q) /\ Log([op |-> "chgqty", id |-> id, q |-> q])
DoChangePrice == RawAdds /\ \E s \in Sides, id \in Ids, p \in Px :
            ChangePrice(s, id, p) /\ Log([op |-> "chgpx", s |-> s, id |-> id, p |-> p])
DoRemove == \E s \in Sides, p \in Px, q \in Qty :
            RemoveAny(s, p, q) /\ Log([op |-> "remove", s |-> s, p |-> p, q |-> q])

Next == DoAdd \/ DoLimit \/ DoMarket \/ DoCancel \/ DoModify \/ DoChange \/ DoChangePrice \/ DoRemove
Spec == Init /\ [][Next]_vars

View == book
Cover == Emit => PrintT("@@" \o ToJson([h |-> hist', o |-> Proj(book'), r |-> res']))

(* action properties, checked on every transition *)
IsOp(n) == Len(hist') > 0 /\ hist'[Len(hist')].op = n
Args == hist'[Len(hist')]
PriorityProp == [][(IsOp("limit") \/ IsOp("market")) => Priority(Opp(Args.s))]_vars
ConserveProp == [][(IsOp("limit") \/ IsOp("market")) => Conserve(Opp(Args.s))]_vars
FilledProp == [][(IsOp("limit") \/ IsOp("market")) /\ res'.k = "trade"
                  => SumHist(res'.hist) + res'.rem = Args.q]_vars
LimitProp == [][IsOp("limit") /\ res'.k = "trade" =>
                 \A i \in 1..Len(res'.hist) :
                    IF Args.s = Ask THEN res'.hist[i][1] >= Args.p ELSE res'.hist[i][1] <= Args.p]_vars
RestProp == [][IsOp("limit") =>
                 (Args.id \in LiveIds(book') <=> (res'.k = "none" \/ res'.rem > 0))]_vars
KeepPlaceProp ==  \* an amend at the same price never moves the order in its queue
    [][IsOp("modify") /\ Args.id \in LiveIds(book) /\ Args.q > 0 /\ PriceOf(book, Args.id) = Args.p
        => LET s == SideOf(book, Args.id) IN
           PosIn(book'[s][Args.p], Args.id) = PosIn(book[s][Args.p], Args.id)]_vars
UnknownProp == [][(IsOp("cancel") \/ IsOp("modify") \/ IsOp("chgqty")) /\ Args.id \notin LiveIds(book)
        => UNCHANGED book]_vars
=============================================================================
