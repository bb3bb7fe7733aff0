-------------------------------- MODULE Desk --------------------------------
(* What the desk keeps around a book: the table that says of which type and currency an instrument is,
   a balance with its bounds, a record of trades, texts written only when they are read, the number of
   the next order made up by the desk, and the letters on their way between mailboxes.

   A desk d:  tbl    instrument -> <<type, currency>>, <<>> when unknown
              bal    balance [side, out, pend, liq, up, low]; a bound is <<>> or <<number>>
              hist   sequence of trades <<price, quantity>>
              lazy   text -> how often it was written
              next   the next made-up order number
              mail   mailbox -> letters not yet taken, in no order *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Insts, Texts, Boxes

Bal0(s, o) == [side |-> s, out |-> o, pend |-> 0, liq |-> o, up |-> <<>>, low |-> <<>>]
Desk0 == [tbl |-> [i \in Insts |-> <<>>], bal |-> Bal0("ask", 0), hist |-> <<>>, lazy |-> [k \in Texts |-> 0], next |-> 1,
          mail |-> [b \in Boxes |-> <<>>]]
Opposite(s) == IF s = "ask" THEN "bid" ELSE "ask"

Insert(d, i, t, c) == [d EXCEPT !.tbl[i] = <<t, c>>]
Open(d, s, o) == [d EXCEPT !.bal = Bal0(s, o)]
NoShort(d) == [d EXCEPT !.bal.low = <<0>>]
Upper(d, n) == [d EXCEPT !.bal.up = <<n>>]
Lower(d, n) == [d EXCEPT !.bal.low = <<n>>]
Turn(d) == [d EXCEPT !.bal.side = Opposite(@)]
Trade(d, p, q) == [d EXCEPT !.hist = Append(@, <<p, q>>)]
Amend(d, k, p, q) == [d EXCEPT !.hist[k] = <<p, q>>]
Forget(d) == [d EXCEPT !.hist = <<>>]
Read(d, k) == [d EXCEPT !.lazy[k] = 1]          \* written at the first reading and never again
Number(d) == [d EXCEPT !.next = @ + 1]
Send(d, b, m) == [d EXCEPT !.mail[b] = Append(@, m)]
Drain(d, b) == [d EXCEPT !.mail[b] = <<>>]


SumOf(f(_), h) == FoldSeq(LAMBDA x, a : f(x) + a, 0, h)
Turnover(h) == SumOf(LAMBDA x : x[1] * x[2], h)
Traded(h) == SumOf(LAMBDA x : x[2], h)
Flat(d) == d.bal.out = 0

(* codes of the feeds *)
SideOf(n) == IF n = 1 THEN "ask" ELSE IF n = 2 THEN "bid" ELSE "no"
DataOf(n) == IF n = 1 THEN "L1" ELSE IF n = 2 THEN "L2" ELSE IF n = 3 THEN "L3" ELSE "no"
TypeOf(n) == IF n = 0 THEN "undefined" ELSE IF n = 1 THEN "sell" ELSE IF n = 2 THEN "buy" ELSE "no"
Currencies == <<"KRW", "USD", "EUR", "GBP", "JPY", "CNY", "HKD">>
Venues == <<"Undefined", "CCP", "KRX", "KIS", "SI">>
Types == <<"Cash", "Stock", "Bond", "EquityFutures", "FxFutures", "CommodityFutures", "EquityOption", "Swap", "Crypto">>
Cash(c) == c \o "000000000"                     \* the code under which cash of a currency is an instrument
=============================================================================
