------------------------------ MODULE OrderBook ------------------------------
(***************************************************************************)
(* The limit order book of the trading engine: two half books, each a map  *)
(* from price to a FIFO queue of resting orders.  One action per public    *)
(* call.  `res' is the value the call returns.  The specification is       *)
(* deterministic except for the ids a level feed invents for its orders.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES book,   \* [ask |-> half, bid |-> half]
          res     \* value returned by the last call

bvars == <<book, res>>

Ask == "ask"
Bid == "bid"
Sides == {Ask, Bid}
Opp(s) == IF s = Ask THEN Bid ELSE Ask

EmptyHalf == [p \in {} |-> <<>>]
EmptyBook == [ask |-> EmptyHalf, bid |-> EmptyHalf]

Ord(id, q) == [id |-> id, q |-> q]

---------------------------------------------------------------------------
(* projections *)
RECURSIVE SumQ(_)
SumQ(s) == IF s = <<>> THEN 0 ELSE Head(s).q + SumQ(Tail(s))

Prices(h) == DOMAIN h
LevelQty(h, p) == IF p \in DOMAIN h THEN SumQ(h[p]) ELSE 0
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Desc(S) == SetToSortSeq(S, LAMBDA a, b : a > b)
RECURSIVE SumOver(_, _)
SumOver(h, S) == IF S = {} THEN 0
                 ELSE LET p == CHOOSE x \in S : TRUE IN SumQ(h[p]) + SumOver(h, S \ {p})
TotalQty(h) == SumOver(h, DOMAIN h)

MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : y >= x
HasBest(h) == DOMAIN h # {}
Best(side, h) == IF side = Ask THEN MinS(DOMAIN h) ELSE MaxS(DOMAIN h)

IdsOfQ(s) == {s[i].id : i \in 1..Len(s)}
IdsOfH(h) == UNION {IdsOfQ(h[p]) : p \in DOMAIN h}
LiveIds(b) == IdsOfH(b.ask) \cup IdsOfH(b.bid)
SideOf(b, id) == IF id \in IdsOfH(b.ask) THEN Ask ELSE Bid
PriceOf(b, id) == LET h == b[SideOf(b, id)] IN CHOOSE p \in DOMAIN h : id \in IdsOfQ(h[p])
PosIn(s, id) == CHOOSE i \in 1..Len(s) : s[i].id = id
QtyOf(b, id) == LET s == b[SideOf(b, id)][PriceOf(b, id)] IN s[PosIn(s, id)].q

---------------------------------------------------------------------------
(* pure half-book operations *)
SetLevel(h, p, s) ==
    IF s = <<>> THEN [x \in (DOMAIN h) \ {p} |-> h[x]]
    ELSE [x \in (DOMAIN h) \cup {p} |-> IF x = p THEN s ELSE h[x]]
QueueAt(h, p) == IF p \in DOMAIN h THEN h[p] ELSE <<>>
Rest(h, p, id, q) == SetLevel(h, p, Append(QueueAt(h, p), Ord(id, q)))
DropId(s, id) == SelectSeq(s, LAMBDA o : o.id # id)
Without(h, id) == LET p == CHOOSE x \in DOMAIN h : id \in IdsOfQ(h[x])
                  IN SetLevel(h, p, DropId(h[p], id))
SetQty(h, p, id, q) ==
    IF q = 0 THEN SetLevel(h, p, DropId(h[p], id))
    ELSE SetLevel(h, p, [i \in 1..Len(h[p]) |-> IF h[p][i].id = id THEN Ord(id, q) ELSE h[p][i]])

RECURSIVE TakeFront(_, _)
(* consume q from the front of a queue: [s |-> what is left, rem |-> unfilled part of q] *)
TakeFront(s, q) ==
    IF q = 0 \/ s = <<>> THEN [s |-> s, rem |-> q]
    ELSE IF Head(s).q > q THEN [s |-> <<Ord(Head(s).id, Head(s).q - q)>> \o Tail(s), rem |-> 0]
    ELSE TakeFront(Tail(s), q - Head(s).q)

RECURSIVE TakeBack(_, _)
TakeBack(s, q) ==
    IF q = 0 \/ s = <<>> THEN [s |-> s, rem |-> q]
    ELSE LET l == s[Len(s)] IN
         IF l.q > q THEN [s |-> Append(SubSeq(s, 1, Len(s) - 1), Ord(l.id, l.q - q)), rem |-> 0]
         ELSE TakeBack(SubSeq(s, 1, Len(s) - 1), q - l.q)

RECURSIVE Sweep(_, _, _, _)
(* hit the prices of seq ps in order; h half book, q wanted, hist trades so far *)
Sweep(h, ps, q, hist) ==
    IF q = 0 \/ ps = <<>> THEN [h |-> h, rem |-> q, hist |-> hist]
    ELSE LET p == Head(ps)
             t == TakeFront(h[p], q)
         IN Sweep(SetLevel(h, p, t.s), Tail(ps), t.rem, Append(hist, <<p, q - t.rem>>))

(* prices of half book h (of side s) that an incoming order may hit, best first *)
HitAll(s, h) == IF s = Ask THEN Asc(DOMAIN h) ELSE Desc(DOMAIN h)
HitLim(s, h, lim) == IF s = Ask THEN Asc({p \in DOMAIN h : p <= lim})
                     ELSE Desc({p \in DOMAIN h : p >= lim})

NoneRes == [k |-> "none"]
TradeRes(hist, rem) == [k |-> "trade", hist |-> hist, rem |-> rem]
OkRes == [k |-> "ok"]
RemRes(n) == [k |-> "rem", rem |-> n]

Upd(b, s, h) == [b EXCEPT ![s] = h]

(* result of sending a limit order to the book: [b |-> book', r |-> result] *)
SendLimit(b, s, p, q, id) ==
    LET o == Opp(s)
        ps == HitLim(o, b[o], p)
    IN IF ps = <<>> THEN [b |-> Upd(b, s, Rest(b[s], p, id, q)), r |-> NoneRes]
       ELSE LET t == Sweep(b[o], ps, q, <<>>)
                b1 == Upd(b, o, t.h)
            IN [b |-> IF t.rem > 0 THEN Upd(b1, s, Rest(b1[s], p, id, t.rem)) ELSE b1,
                r |-> TradeRes(t.hist, t.rem)]

SendMarket(b, s, q) ==
    LET o == Opp(s) IN
    IF DOMAIN b[o] = {} THEN [b |-> b, r |-> NoneRes]
    ELSE LET t == Sweep(b[o], HitAll(o, b[o]), q, <<>>)
         IN [b |-> Upd(b, o, t.h), r |-> TradeRes(t.hist, t.rem)]

---------------------------------------------------------------------------
(* actions: one per public call *)
BookInit == book = EmptyBook /\ res = OkRes

(* rest without matching: the caller vouches for the price (may lock or cross the book) *)
Add(s, p, q, id) ==
    /\ id \notin LiveIds(book)
    /\ book' = Upd(book, s, Rest(book[s], p, id, q))
    /\ res' = OkRes

Limit(s, p, q, id) ==
    /\ id \notin LiveIds(book)
    /\ LET x == SendLimit(book, s, p, q, id) IN book' = x.b /\ res' = x.r

Market(s, q) ==
    LET x == SendMarket(book, s, q) IN book' = x.b /\ res' = x.r

Cancel(id) ==
    IF id \in LiveIds(book)
    THEN LET s == SideOf(book, id) IN
         book' = Upd(book, s, Without(book[s], id)) /\ res' = OkRes
    ELSE UNCHANGED book /\ res' = NoneRes

(* amend in place at the same price (keeps queue position); otherwise cancel and resend *)
Modify(id, p, q) ==
    IF id \notin LiveIds(book) THEN UNCHANGED book /\ res' = NoneRes
    ELSE LET s == SideOf(book, id)
             p0 == PriceOf(book, id)
         IN IF p = p0
            THEN book' = Upd(book, s, SetQty(book[s], p0, id, q)) /\ res' = NoneRes
            ELSE LET x == SendLimit(Upd(book, s, Without(book[s], id)), s, p, q, id)
                 IN book' = x.b /\ res' = x.r

ChangeQty(id, q) ==
    IF id \notin LiveIds(book) THEN UNCHANGED book /\ res' = NoneRes
    ELSE LET s == SideOf(book, id) IN
         book' = Upd(book, s, SetQty(book[s], PriceOf(book, id), id, q)) /\ res' = OkRes

(* move an order to another price of its own side, to the back of that queue, without matching *)
ChangePrice(s, id, p) ==
    IF id \notin IdsOfH(book[s]) THEN UNCHANGED book /\ res' = NoneRes
    ELSE LET q == QtyOf(book, id) IN
         book' = Upd(book, s, Rest(Without(book[s], id), p, id, q)) /\ res' = OkRes

(* level-feed removal: quantity q leaves the back of the queue at p *)
RemoveAny(s, p, q) ==
    LET t == TakeBack(QueueAt(book[s], p), q) IN
    /\ book' = Upd(book, s, SetLevel(book[s], p, t.s))
    /\ res' = RemRes(t.rem)

(* A depth side is a sequence of <<price, qty>> with distinct prices; quantity 0 means "no level". *)
DepthPrices(d) == {d[i][1] : i \in {j \in 1..Len(d) : d[j][2] > 0}}
DepthQty(d, p) == LET i == CHOOSE j \in 1..Len(d) : d[j][1] = p IN d[i][2]
SingleOrder(h) == \A p \in DOMAIN h : Len(h[p]) = 1

(* one side after a full-depth snapshot: exactly the listed levels; a surviving level keeps its
   order, a new one gets an id chosen by the implementation (newid: price -> id) *)
SnapSide(h, d, newid) ==
    [p \in DepthPrices(d) |->
        IF p \in DOMAIN h THEN <<Ord(h[p][1].id, DepthQty(d, p))>>
        ELSE <<Ord(newid[p], DepthQty(d, p))>>]

(* a feed carries one quantity per level: levels of several orders may disappear, not survive *)
Survivable(h, d) == \A p \in DOMAIN h \cap DepthPrices(d) : Len(h[p]) = 1

Snapshot(da, db, na, nb) ==
    /\ Survivable(book.ask, da) /\ Survivable(book.bid, db)
    /\ book' = [ask |-> SnapSide(book.ask, da, na), bid |-> SnapSide(book.bid, db, nb)]
    /\ res' = OkRes

(* the difference between a side and a depth list: set of <<kind, price, qty>> *)
DiffSide(h, d) ==
    {<<"add", p, DepthQty(d, p) - LevelQty(h, p)>> :
        p \in {x \in DepthPrices(d) : DepthQty(d, x) > LevelQty(h, x)}}
    \cup
    {<<"rem", p, LevelQty(h, p) - (IF p \in DepthPrices(d) THEN DepthQty(d, p) ELSE 0)>> :
        p \in {x \in DOMAIN h : (IF x \in DepthPrices(d) THEN DepthQty(d, x) ELSE 0) < LevelQty(h, x)}}

ApplyDiff(h, d, newid) ==
    [p \in DepthPrices(d) |->
        LET cur == LevelQty(h, p)  want == DepthQty(d, p) IN
        IF want > cur THEN Append(QueueAt(h, p), Ord(newid[p], want - cur))
        ELSE TakeBack(QueueAt(h, p), cur - want).s]

Decompose(da, db, na, nb) ==
    /\ res' = [k |-> "diff", ask |-> DiffSide(book.ask, da), bid |-> DiffSide(book.bid, db)]
    /\ book' = [ask |-> ApplyDiff(book.ask, da, na), bid |-> ApplyDiff(book.bid, db, nb)]

---------------------------------------------------------------------------
(* what an observer of the real book can see *)
QProj(s) == [i \in 1..Len(s) |-> <<s[i].id, s[i].q>>]
SideProj(h) == LET ps == Asc(DOMAIN h) IN [i \in 1..Len(ps) |-> <<ps[i], QProj(h[ps[i]])>>]
DepthProj(h) == LET ps == Asc(DOMAIN h) IN
                [i \in 1..Len(ps) |-> <<ps[i], SumQ(h[ps[i]]), Len(h[ps[i]])>>]
BestProj(s, h) == IF HasBest(h) THEN Best(s, h) ELSE -1
OrdProj(b) == LET ids == Asc(LiveIds(b)) IN
    [i \in 1..Len(ids) |-> <<ids[i], IF SideOf(b, ids[i]) = Ask THEN 1 ELSE 2, PriceOf(b, ids[i]), QtyOf(b, ids[i])>>]
Proj(b) == [ask |-> SideProj(b.ask), bid |-> SideProj(b.bid),
            da |-> DepthProj(b.ask), db |-> DepthProj(b.bid),
            best |-> <<BestProj(Ask, b.ask), BestProj(Bid, b.bid)>>,
            tot |-> <<TotalQty(b.ask), TotalQty(b.bid)>>,
            ords |-> OrdProj(b)]
(* the same without order identities: what a depth feed can see *)
LProj(b) == [da |-> DepthProj(b.ask), db |-> DepthProj(b.bid),
             best |-> <<BestProj(Ask, b.ask), BestProj(Bid, b.bid)>>,
             tot |-> <<TotalQty(b.ask), TotalQty(b.bid)>>]

---------------------------------------------------------------------------
(* properties *)
WellFormed ==
    /\ \A s \in Sides : \A p \in DOMAIN book[s] :
          /\ book[s][p] # <<>>
          /\ \A i \in 1..Len(book[s][p]) : book[s][p][i].q > 0
    /\ IdsOfH(book.ask) \cap IdsOfH(book.bid) = {}
    /\ \A s \in Sides : \A p1, p2 \in DOMAIN book[s] :
          p1 # p2 => IdsOfQ(book[s][p1]) \cap IdsOfQ(book[s][p2]) = {}
    /\ \A s \in Sides : \A p \in DOMAIN book[s] :
          Cardinality(IdsOfQ(book[s][p])) = Len(book[s][p])

NotCrossed == HasBest(book.ask) /\ HasBest(book.bid)
              => Best(Bid, book.bid) < Best(Ask, book.ask)

RECURSIVE SumHist(_)
SumHist(h) == IF h = <<>> THEN 0 ELSE Head(h)[2] + SumHist(Tail(h))

(* order a has priority over b when both rest on side s of book bk *)
Before(bk, s, a, b) ==
    LET pa == PriceOf(bk, a)  pb == PriceOf(bk, b) IN
    \/ (IF s = Ask THEN pa < pb ELSE pa > pb)
    \/ (pa = pb /\ PosIn(bk[s][pa], a) < PosIn(bk[s][pa], b))

(* for an execution against side o: whoever was touched, everybody before him is gone *)
Priority(o) ==
    \A a, b \in IdsOfH(book[o]) :
        (a # b /\ Before(book, o, a, b)
           /\ (b \notin IdsOfH(book'[o]) \/ QtyOf(book', b) # QtyOf(book, b)))
        => a \notin IdsOfH(book'[o])

Conserve(o) ==
    res'.k = "trade" => TotalQty(book[o]) - TotalQty(book'[o]) = SumHist(res'.hist)
===============================================================================
