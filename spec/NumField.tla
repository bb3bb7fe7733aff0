------------------------------ MODULE NumField ------------------------------
(* A number in a field of an exchange message.  A layout says how the field is made:
      sign character (when signed), unused characters, whole digits, point and decimals.
   int    number of whole digits                dec    length of point and decimals together, 0 for none
   signed whether a sign character leads        unused characters skipped
   norm   <<>> or <<n>>: when the number is used as a feature it is divided by 10^n
   drop   the point and the decimals are not read
   total  length of the whole field

   Numbers are sequences of decimal digits, so that no bound of the model checker's integers matters. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

B(x) == IF x THEN 1 ELSE 0
Total(l) == B(l.signed) + l.unused + l.int + l.dec
Read(l) == l.int + (IF l.drop THEN 0 ELSE l.dec)        \* characters that are read, the point included
Places(l) == IF l.drop \/ l.dec = 0 THEN 0 ELSE l.dec - 1
Decimals(l) == IF l.dec = 0 THEN 0 ELSE l.dec - 1
(* a layout must add up, and 64 bits hold eighteen digits *)
Good(l) == l.total = Total(l) /\ Read(l) <= 18

Ch(k) == SubSeq(<<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>, k + 1, k + 1)[1]
Str(ds) == FoldLeft(LAMBDA a, x : a \o x, "", [i \in DOMAIN ds |-> Ch(ds[i])])
RECURSIVE Strip(_)
Strip(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN Strip(Tail(ds)) ELSE ds
Zeros(n) == [i \in 1..n |-> 0]

(* the field that spells the digits ds (whole digits and decimals) *)
Field(l, neg, pad, ds) ==
    (IF l.signed THEN (IF neg THEN "-" ELSE "0") ELSE "")
    \o FoldLeft(LAMBDA a, x : a \o x, "", [i \in 1..l.unused |-> pad])
    \o Str(SubSeq(ds, 1, l.int)) \o (IF l.dec = 0 THEN "" ELSE "." \o Str(SubSeq(ds, l.int + 1, Len(ds))))
(* the digits that are read, and the number they make, in units of the last place read *)
Seen(l, ds) == SubSeq(ds, 1, l.int + Places(l))
Whole(l, neg, ds) ==
    LET v == Strip(Seen(l, ds)) IN (IF neg /\ v # <<0>> THEN "-" ELSE "") \o Str(v)
(* digits ds with a point k places before their end *)
Pointed(ds, k) ==
    LET z == IF Len(ds) <= k THEN Zeros(k + 1 - Len(ds)) \o ds ELSE ds
    IN Str(Strip(SubSeq(z, 1, Len(z) - k))) \o "." \o Str(SubSeq(z, Len(z) - k + 1, Len(z))) \o "0"
Real(l, neg, ds) == (IF neg THEN "-" ELSE "") \o Pointed(Seen(l, ds), Places(l))
Feature(l, neg, ds) == (IF neg THEN "-" ELSE "") \o Pointed(Seen(l, ds), Places(l) + (IF l.norm = <<>> THEN 0 ELSE l.norm[1]))

(* a unit of time in which the distance of two stamps is told: digits of nanoseconds with the point
   `places` before the end, then divided by `by` *)
Units == [nanos |-> [places |-> 0, by |-> 1], micros |-> [places |-> 3, by |-> 1], millis |-> [places |-> 6, by |-> 1],
          secs |-> [places |-> 9, by |-> 1], mins |-> [places |-> 9, by |-> 60], hours |-> [places |-> 9, by |-> 3600],
          days |-> [places |-> 9, by |-> 86400]]

(* questions about the bytes of a code *)
Space == 32
Tab == 9
White == {9, 10, 12, 13, 32}
HasSpace(bs) == \E i \in DOMAIN bs : bs[i] \in {Space, Tab}
AllSpace(bs) == \A i \in DOMAIN bs : bs[i] \in White
Ascii(bs) == \A i \in DOMAIN bs : bs[i] < 128

(* the layouts of the Korean exchange *)
Lay(int, dec, signed, unused, norm, drop) ==
    [int |-> int, dec |-> dec, signed |-> signed, unused |-> unused, norm |-> norm, drop |-> drop,
     total |-> Total([int |-> int, dec |-> dec, signed |-> signed, unused |-> unused])]
Named == [order_count |-> Lay(5, 0, FALSE, 0, <<>>, FALSE),
          derivative_price |-> Lay(5, 3, TRUE, 0, <<>>, FALSE), derivative_quantity |-> Lay(9, 0, FALSE, 0, <<>>, FALSE),
          riskfree_price |-> Lay(4, 4, TRUE, 0, <<>>, FALSE), riskfree_quantity |-> Lay(9, 0, FALSE, 0, <<>>, FALSE),
          stockfut_price |-> Lay(8, 0, TRUE, 0, <<1>>, FALSE), stockfut_quantity |-> Lay(9, 0, FALSE, 0, <<>>, FALSE),
          commodity_price |-> Lay(8, 0, TRUE, 0, <<1>>, FALSE), commodity_quantity |-> Lay(9, 0, FALSE, 0, <<>>, FALSE),
          stock_price |-> Lay(9, 0, FALSE, 2, <<>>, FALSE), stock_quantity |-> Lay(12, 0, FALSE, 0, <<>>, FALSE),
          bond_price |-> Lay(7, 3, FALSE, 1, <<>>, FALSE), bond_quantity |-> Lay(12, 0, FALSE, 0, <<>>, FALSE),
          repo_price |-> Lay(6, 4, TRUE, 0, <<>>, FALSE), repo_quantity |-> Lay(15, 0, FALSE, 0, <<>>, FALSE),
          yield |-> Lay(5, 7, TRUE, 0, <<>>, FALSE),
          cum_quantity |-> Lay(12, 0, FALSE, 0, <<4>>, FALSE), cum_bond |-> Lay(15, 0, FALSE, 0, <<4>>, FALSE),
          cum_value |-> Lay(18, 4, FALSE, 0, <<8>>, TRUE)]
(* the layout of a derivative follows the code of its message and its instrument *)
DerivativeKind(tr, isin) ==
    IF tr \in {"04F", "05F"} THEN "stockfut" ELSE IF tr = "10F" THEN "commodity"
    ELSE IF SubSeq(isin, 1, 6) = "KR4169" THEN "riskfree" ELSE "derivative"
=============================================================================
