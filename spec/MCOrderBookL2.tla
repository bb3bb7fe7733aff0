--------------------------- MODULE MCOrderBookL2 ---------------------------
(* Exhaustive small-constant model of OrderBook driven by a depth feed: snapshots, derived orders,
   removals from the back of a queue and executions.  Order identities are not observable here. *)
EXTENDS OrderBook, Json

CONSTANTS PxA, PxB, MaxQ, Emit
VARIABLE hist
vars == <<book, res, hist>>

RECURSIVE ToDepth(_, _, _)
ToDepth(f, ps, rev) == IF ps = <<>> THEN <<>>
    ELSE LET rest == ToDepth(f, Tail(ps), rev)
             one == IF f[Head(ps)] = 0 THEN <<>> ELSE <<<<Head(ps), f[Head(ps)]>>>>
         IN IF rev THEN rest \o one ELSE one \o rest
(* every depth list over the prices: best level first, as an exchange sends it *)
DepthsA == {ToDepth(f, Asc(PxA), FALSE) : f \in [PxA -> 0..MaxQ]}
DepthsB == {ToDepth(f, Asc(PxB), TRUE) : f \in [PxB -> 0..MaxQ]}
        \cup {<<<<1, 1>>, <<7, 0>>>>}   \* an empty slot

(* deterministic fresh ids; which ones does not matter *)
NewA == [p \in PxA |-> 1000 + 100 * p + Len(QueueAt(book.ask, p)) + 10 * Len(hist)]
NewB == [p \in PxB \cup {7} |-> 500000 + 1000 * p + Len(QueueAt(book.bid, p)) + 10 * Len(hist)]

Log(rec) == hist' = Append(hist, rec)
Init == BookInit /\ hist = <<>>
DoSnap == \E a \in DepthsA, b \in DepthsB :
            Snapshot(a, b, NewA, NewB) /\ Log([op |-> "snap", a |-> a, b |-> b])
DoDecomp == \E a \in DepthsA, b \in DepthsB :
            Decompose(a, b, NewA, NewB) /\ Log([op |-> "decomp", a |-> a, b |-> b])
DoMarket == \E s \in Sides, q \in 1..(MaxQ + 1) : Market(s, q) /\ Log([op |-> "market", s |-> s, q |-> q])
DoRemove == \E s \in Sides, p \in PxA \cup PxB, q \in 1..(MaxQ + 1) :
            RemoveAny(s, p, q) /\ Log([op |-> "remove", s |-> s, p |-> p, q |-> q])
Next == DoSnap \/ DoDecomp \/ DoMarket \/ DoRemove
Spec == Init /\ [][Next]_vars

Shape(h) == [p \in DOMAIN h |-> [i \in 1..Len(h[p]) |-> h[p][i].q]]
View == <<Shape(book.ask), Shape(book.bid)>>
SeqRes(r) == IF r.k = "diff" THEN [r EXCEPT !.ask = SetToSeq(r.ask), !.bid = SetToSeq(r.bid)] ELSE r
Cover == Emit => PrintT("@@" \o ToJson([h |-> hist', o |-> LProj(book'), r |-> SeqRes(res')]))

IsOp(n) == Len(hist') > 0 /\ hist'[Len(hist')].op = n
Args == hist'[Len(hist')]
Shows(h, d) == /\ DOMAIN h = DepthPrices(d)
               /\ \A p \in DOMAIN h : LevelQty(h, p) = DepthQty(d, p)
SnapProp == [][(IsOp("snap") \/ IsOp("decomp")) => Shows(book'.ask, Args.a) /\ Shows(book'.bid, Args.b)]_vars
IdemProp == [][IsOp("decomp") /\ Shows(book.ask, Args.a) /\ Shows(book.bid, Args.b)
                => res'.ask = {} /\ res'.bid = {} /\ UNCHANGED book]_vars
BackProp == \* derived removals leave the front of each queue alone
    [][IsOp("remove") =>
        LET h == book[Args.s] h2 == book'[Args.s] IN
        \A p \in DOMAIN h2 : \A i \in 1..(Len(h2[p]) - 1) : h2[p][i] = h[p][i]]_vars
=============================================================================
