----------------------------- MODULE MCNumField -----------------------------
(* Layouts and digits.  Reading is a sum over positions, so each position is tried alone, and all together. *)
EXTENDS NumField, Json, TLC
CONSTANTS MaxDigits, Unuseds, AllFills
VARIABLE t
Fill(n) == [zero |-> Zeros(n), nine |-> [i \in 1..n |-> 9], up |-> [i \in 1..n |-> (i % 10)], mix |-> [i \in 1..n |-> ((7 * i + 3) % 10)]]
Fills(n) == {Fill(n).zero, Fill(n).nine, Fill(n).up, Fill(n).mix} \cup {[i \in 1..n |-> IF i = j THEN 7 ELSE 0] : j \in IF AllFills THEN 1..n ELSE {1, n, (n + 1) \div 2} \cap 1..n}
Test(k, l, neg, pad, ds) ==
    [k |-> k, l |-> l, f |-> Field(l, neg, pad, ds), n |-> Whole(l, neg, ds), r |-> Real(l, neg, ds), x |-> Feature(l, neg, ds)]
Layouts == {l \in [int : 0..MaxDigits, dec : 0..MaxDigits, signed : BOOLEAN, unused : Unuseds, norm : {<<>>, <<0>>, <<3>>}, drop : BOOLEAN, total : {0}] :
              /\ l.int + l.dec <= MaxDigits + 1 /\ (l.drop => l.dec > 0 /\ l.int > 0) /\ (l.norm = <<3>> => Places(l) <= 12)
              /\ l.int + Decimals(l) > 0 /\ (l.norm = <<0>> => ~l.signed)}
Init ==
    \/ \E l0 \in Layouts :
         LET l == [l0 EXCEPT !.total = Total(l0)] IN
         IF Good(l)
         THEN \E ds \in Fills(l.int + Decimals(l)), neg \in {FALSE, l.signed} : t = Test("layout", l, neg, IF neg THEN "0" ELSE "#", ds)
         ELSE t = [k |-> "bad", l |-> l]
    \/ \E l0 \in {Lay(5, 3, TRUE, 0, <<>>, FALSE), Lay(9, 0, FALSE, 2, <<>>, FALSE), Lay(18, 4, FALSE, 0, <<8>>, TRUE)}, off \in {-1, 1, 2} :
         t = [k |-> "bad", l |-> [l0 EXCEPT !.total = @ + off]]
    \/ \E m \in DOMAIN Named : \E ds \in Fills(Named[m].int + Decimals(Named[m])), neg \in {FALSE, Named[m].signed} :
         t = Test(m, Named[m], neg, "0", ds)
    \/ \E n \in {2, 3} : \E ds \in [1..n -> {0, 1, 5, 9}] : t = [k |-> "short", f |-> Str(ds), n |-> Str(Strip(ds))]
    \/ \E h \in 0..23, m \in {0, 1, 9, 10, 34, 59}, s \in {0, 7, 30, 59} :
         t = [k |-> "clock", f |-> Str(<<h \div 10, h % 10, m \div 10, m % 10, s \div 10, s % 10>>), n |-> h * 3600 + m * 60 + s]
    \/ \E n \in 0..19, u \in DOMAIN Units : \E ds \in Fills(n) \ {<<>>} : \E base \in {"0", "1", "977000000001", "90000000000000001"} :
         (n = 19 => ds[1] <= 7) /\ t = [k |-> "span", u |-> u, base |-> base, f |-> Str(Strip(ds)), r |-> Pointed(ds, Units[u].places), by |-> Units[u].by]
    \/ \E tr \in {"04F", "05F", "10F", "01F", "16F", "40F", "14F", "05G"}, isin \in {"KR4169V30005", "KR4106V30004", "KR4161690005", "KR5169V30005"} :
         t = [k |-> "kind", tr |-> tr, isin |-> isin, n |-> DerivativeKind(tr, isin)]
    \/ \E n \in 0..(IF AllFills THEN 4 ELSE 3) : \E bs \in [1..n -> {0, 9, 10, 11, 12, 13, 32, 48, 127, 128, 160}] :
         t = [k |-> "bytes", bs |-> bs, has |-> HasSpace(bs), all |-> AllSpace(bs), ascii |-> Ascii(bs)]
    \/ \E off \in {0, 1, 45296, 86399}, d \in {0, 1, 19782, 19783, 40000}, ns \in {0, 1, 999999999} :
         \* a day and a time of day: the generator of dates is at the midnight before
         t = [k |-> "day", d |-> d, s |-> off, ns |-> ns]
    \/ \E w \in 0..16 : t = [k |-> "weight", w |-> w, n |-> 16 - w]
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
(* a field is as long as its layout says, and spells its digits again *)
Laws == t.k \in DOMAIN Named \cup {"layout"} =>
    /\ Len(t.f) = t.l.total
    /\ Len(t.n) <= 19
Cover == PrintT("@@" \o ToJson(t))
=============================================================================
