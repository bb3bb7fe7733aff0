------------------------------- MODULE MCDesk -------------------------------
(* Histories of one part of the desk at a time, and of all of them; every state of the desk is compared after every step. *)
EXTENDS Desk, Json, TLC
CONSTANTS Parts, Steps, Big
PartsQuick == {"table", "balance", "trades", "texts", "mail", "codes"}
VARIABLES part, d, hist
vars == <<part, d, hist>>
Init == part \in Parts /\ d = Desk0 /\ hist = <<>>
Do(op, x) == d' = x /\ hist' = Append(hist, [op |-> op, d |-> x]) /\ UNCHANGED part
Prices == IF Big THEN {1, 3, 100, 0} ELSE {1, 3, 100}
Amounts == IF Big THEN {1, 2, 7} ELSE {1, 7}
Sizes == IF Big THEN {0, 1, 5, 9} ELSE {0, 5}
Letters == IF Big THEN {"empty", "short", "full", "wide", "lines", "raw"} ELSE {"empty", "full", "wide", "raw"}
Next ==
    /\ Len(hist) < Steps
    /\ \/ /\ part = "table"
          /\ \E i \in Insts, t \in IF Big THEN 1..Len(Types) ELSE {1, 4, 9}, c \in {1, 2, 7} : Do([k |-> "insert", i |-> i, t |-> Types[t], c |-> Currencies[c]], Insert(d, i, Types[t], Currencies[c]))
       \/ /\ part = "balance"
          /\ \/ \E s \in {"ask", "bid"}, o \in Sizes : Do([k |-> "open", s |-> s, n |-> o], Open(d, s, o))
             \/ Do([k |-> "noshort"], NoShort(d))
             \/ Do([k |-> "turn"], Turn(d))
             \/ \E n \in Sizes : Do([k |-> "upper", n |-> n], Upper(d, n)) \/ Do([k |-> "lower", n |-> n], Lower(d, n))
       \/ /\ part = "trades"
          /\ \/ \E p \in Prices, q \in Amounts : Do([k |-> "trade", p |-> p, q |-> q], Trade(d, p, q))
             \/ \E k \in DOMAIN d.hist, p \in {2} , q \in {1, 4} : Do([k |-> "amend", i |-> k, p |-> p, q |-> q], Amend(d, k, p, q))
             \/ d.hist # <<>> /\ Do([k |-> "forget"], Forget(d))
       \/ /\ part = "texts"
          /\ \/ \E k \in Texts : Do([k |-> "read", t |-> k], Read(d, k))
             \/ Do([k |-> "number"], Number(d))
       \/ /\ part = "mail"
          /\ \/ \E a \in Boxes, b \in Boxes, m \in Letters : a # b /\ Do([k |-> "send", a |-> a, b |-> b, m |-> m], Send(d, b, m))
             \/ \E b \in Boxes : d.mail[b] # <<>> /\ Do([k |-> "drain", b |-> b], Drain(d, b))
Spec == Init /\ [][Next]_vars
View == <<part, d, hist>>
Test == [part |-> part, h |-> hist,
         q |-> [turnover |-> Turnover(d.hist), traded |-> Traded(d.hist), flat |-> Flat(d), opp |-> Opposite(d.bal.side)],
         codes |-> IF part = "codes" THEN [n \in 1..6 |-> [side |-> SideOf(n - 1), data |-> DataOf(n - 1), type |-> TypeOf(n - 1)]] ELSE <<>>,
         names |-> IF part = "codes" THEN [cur |-> Currencies, cash |-> [k \in DOMAIN Currencies |-> Cash(Currencies[k])], venue |-> Venues, type |-> Types] ELSE [cur |-> <<>>, cash |-> <<>>, venue |-> <<>>, type |-> <<>>]]
Emit == PrintT("@@" \o ToJson(Test))
(* laws *)
Laws ==
    /\ Opposite(Opposite(d.bal.side)) = d.bal.side /\ Opposite(d.bal.side) # d.bal.side
    /\ d.bal.pend = 0 /\ d.bal.liq = d.bal.out
    /\ d.hist # <<>> => \E k, j \in DOMAIN d.hist : d.hist[k][1] * Traded(d.hist) <= Turnover(d.hist) /\ Turnover(d.hist) <= d.hist[j][1] * Traded(d.hist)
    /\ \A k \in Texts : d.lazy[k] \in {0, 1}
    /\ \A a, b \in 1..7 : a # b => Cash(Currencies[a]) # Cash(Currencies[b])
=============================================================================
