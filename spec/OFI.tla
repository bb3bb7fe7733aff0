-------------------------------- MODULE OFI --------------------------------
(* The simple-quotes feature (the best levels of the last snapshot) and the order-flow imbalance between it
   and an arriving snapshot.  A level is [p |-> price, q |-> quantity]; level 1 is the best.  Prices and
   quantities are integers in the instrument's smallest unit. *)
EXTENDS Integers, Sequences
VARIABLES feat          \* [cut, bids, asks, ts, sys]
Zero == [p |-> 0, q |-> 0]
Empty(n) == [cut |-> n, bids |-> [i \in 1..n |-> Zero], asks |-> [i \in 1..n |-> Zero], ts |-> 0, sys |-> 0]
Take(s, n) == SubSeq(s, 1, n)
\* what a feature made from a snapshot holds: the effective levels, both times
FromData(d) == [cut |-> d.cut, bids |-> Take(d.bids, d.cut), asks |-> Take(d.asks, d.cut), ts |-> d.ts, sys |-> d.sys]
\* updating keeps the depth of the feature; data with fewer effective levels is refused
Accepts(f, d) == d.cut >= f.cut
Updated(f, d) == IF Accepts(f, d)
                 THEN [FromData(d) EXCEPT !.cut = f.cut, !.bids = Take(d.bids, f.cut), !.asks = Take(d.asks, f.cut)]
                 ELSE f
\* ---- order-flow imbalance at one level
BidFlow(o, n) == IF n.p > o.p THEN n.q ELSE IF n.p = o.p THEN n.q - o.q ELSE -o.q
AskFlow(o, n) == IF n.p > o.p THEN -o.q ELSE IF n.p = o.p THEN n.q - o.q ELSE n.q
LevelOk(f, g, k) == k >= 1 /\ k <= f.cut /\ k <= g.cut
Flow(f, g, k) == [bid |-> BidFlow(f.bids[k], g.bids[k]), ask |-> AskFlow(f.asks[k], g.asks[k]),
                  tot |-> BidFlow(f.bids[k], g.bids[k]) - AskFlow(f.asks[k], g.asks[k])]
\* ---- the logarithmic variant: ln(num / den); a zero quantity contributes nothing
LnNew(n) == IF n.q > 0 THEN <<n.q, 1>> ELSE <<1, 1>>
LnOld(o) == IF o.q > 0 THEN <<1, o.q>> ELSE <<1, 1>>
LnBoth(o, n) == IF o.q > 0 /\ n.q > 0 THEN <<n.q, o.q>> ELSE <<1, 1>>
BidLn(o, n) == IF n.p > o.p THEN LnNew(n) ELSE IF n.p = o.p THEN LnBoth(o, n) ELSE LnOld(o)
AskLn(o, n) == IF n.p > o.p THEN LnOld(o) ELSE IF n.p = o.p THEN LnBoth(o, n) ELSE LnNew(n)
LnFlow(f, g, k) == [bid |-> BidLn(f.bids[k], g.bids[k]), ask |-> AskLn(f.asks[k], g.asks[k])]
\* ---- prices of the feature; "none" when a side has no quantity
RECURSIVE FirstLive(_, _), Qty(_, _), Val(_, _)
FirstLive(s, k) == IF k > Len(s) THEN 0 ELSE IF s[k].q > 0 THEN k ELSE FirstLive(s, k + 1)
Qty(s, k) == IF k > Len(s) THEN 0 ELSE s[k].q + Qty(s, k + 1)
Val(s, k) == IF k > Len(s) THEN 0 ELSE s[k].p * s[k].q + Val(s, k + 1)
NoneV == [have |-> FALSE, num |-> 0, den |-> 1]
Some(n, d) == [have |-> TRUE, num |-> n, den |-> d]
Best(s) == LET k == FirstLive(s, 1) IN IF k = 0 THEN NoneV ELSE Some(s[k].p, 1)
Mid(f) == IF Best(f.bids).have /\ Best(f.asks).have THEN Some(Best(f.bids).num + Best(f.asks).num, 2) ELSE NoneV
\* one-sided books: with bids only the average is left open (the code reports none)
VwapOpen(f) == Qty(f.asks, 1) = 0 /\ Qty(f.bids, 1) > 0
Vwap(f) == LET qq == Qty(f.asks, 1) + Qty(f.bids, 1)
           IN IF qq = 0 THEN NoneV ELSE Some(Val(f.asks, 1) + Val(f.bids, 1), qq)
Prices(f) == [bid |-> Best(f.bids), ask |-> Best(f.asks), mid |-> Mid(f), vwap |-> Vwap(f), vwapopen |-> VwapOpen(f)]
\* ---- algebra of the rule
Mirror(f) == [f EXCEPT !.bids = [i \in 1..f.cut |-> [p |-> -f.asks[i].p, q |-> f.asks[i].q]],
                       !.asks = [i \in 1..f.cut |-> [p |-> -f.bids[i].p, q |-> f.bids[i].q]]]
=============================================================================
