------------------------------- MODULE KrxMsg -------------------------------
(* Fixed-width exchange messages (trading-engine/src/data/krx).  The layouts are the published message
   tables; a message means what stands at the positions its layout gives.  Numbers are kept as their decimal
   text without point and leading zeros, so widths up to 22 digits need no arithmetic.  "~" stands for the
   end keyword (byte 255) and "^" for a byte that is not ASCII. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* -- layouts: lists of <<field, width>> in message order -- *)
Header == << <<"cat", 2>>, <<"info", 3>>, <<"seq", 8>>, <<"board", 2>>, <<"session", 2>>, <<"isin", 12>>,
             <<"issue", 6>>, <<"time", 12>> >>
TradePart == << <<"tprice", 9>>, <<"tqty", 9>>, <<"near", 9>>, <<"far", 9>>, <<"open", 9>>, <<"high", 9>>, <<"low", 9>>,
                <<"prev", 9>>, <<"cum", 12>>, <<"cumval", 22>>, <<"side", 1>>, <<"upper", 9>>, <<"lower", 9>> >>
L(n, f) == ToString(n) \o f
Level(n, pw, qw, extra, xw) ==
    << <<L(n, "ap"), pw>>, <<L(n, "bp"), pw>>, <<L(n, "aq"), qw>>, <<L(n, "bq"), qw>> >> \o
    CASE extra = "count" -> << <<L(n, "ac"), xw>>, <<L(n, "bc"), xw>> >>
      [] extra = "lp"    -> << <<L(n, "al"), xw>>, <<L(n, "bl"), xw>> >>
      [] OTHER -> <<>>
RECURSIVE Levels(_, _, _, _, _)
Levels(n, pw, qw, extra, xw) == IF n = 0 THEN <<>> ELSE Levels(n - 1, pw, qw, extra, xw) \o Level(n, pw, qw, extra, xw)
DerivTotals == << <<"atot", 9>>, <<"btot", 9>>, <<"acnt", 5>>, <<"bcnt", 5>> >>
StockTotals == << <<"atot", 12>>, <<"btot", 12>>, <<"midp", 11>>, <<"midq", 12>> >>
EndKey == << <<"end", 1>> >>

Ifaces == {"IFMSRPD0002", "IFMSRPD0003", "IFMSRPD0034", "IFMSRPD0035", "IFMSRPD0036", "IFMSRPD0037", "IFMSRPD0038"}
MaxLevel(f) == CASE f \in {"IFMSRPD0034", "IFMSRPD0037"} -> 5 [] f = "IFMSRPD0036" -> 0 [] OTHER -> 10
PubLength(f) == CASE f = "IFMSRPD0002" -> 555 [] f = "IFMSRPD0003" -> 795 [] f = "IFMSRPD0034" -> 324 [] f = "IFMSRPD0035" -> 554
                  [] f = "IFMSRPD0036" -> 173 [] f = "IFMSRPD0037" -> 431 [] f = "IFMSRPD0038" -> 661
Extra(f) == CASE f = "IFMSRPD0002" -> "none" [] f = "IFMSRPD0003" -> "lp" [] OTHER -> "count"
Stock(f) == f \in {"IFMSRPD0002", "IFMSRPD0003"}
Trade(f) == f \in {"IFMSRPD0036", "IFMSRPD0037", "IFMSRPD0038"}
(* which snapshot it decodes into *)
Kind(f) == CASE f = "IFMSRPD0036" -> "trade" [] f \in {"IFMSRPD0037", "IFMSRPD0038"} -> "tradequote" [] OTHER -> "quote"

LayoutOf(f) ==
    CASE f = "IFMSRPD0002" -> Header \o Levels(10, 11, 12, "none", 0) \o StockTotals \o EndKey
      [] f = "IFMSRPD0003" -> Header \o Levels(10, 11, 12, "lp", 12) \o StockTotals \o EndKey
      [] f = "IFMSRPD0034" -> Header \o Levels(5, 9, 9, "count", 5) \o << <<"atot", 9>>, <<"btot", 9>>, <<"acnt", 5>>, <<"bcnt", 5>>, <<"estp", 9>>, <<"estq", 9>> >> \o EndKey
      [] f = "IFMSRPD0035" -> Header \o Levels(10, 9, 9, "count", 5) \o << <<"atot", 9>>, <<"btot", 9>>, <<"acnt", 5>>, <<"bcnt", 5>>, <<"estp", 9>>, <<"estq", 9>> >> \o EndKey
      [] f = "IFMSRPD0036" -> Header \o TradePart \o EndKey
      [] f = "IFMSRPD0037" -> Header \o TradePart \o Levels(5, 9, 9, "count", 5) \o DerivTotals \o EndKey
      [] f = "IFMSRPD0038" -> Header \o TradePart \o Levels(10, 9, 9, "count", 5) \o DerivTotals \o EndKey
RECURSIVE Width(_)
Width(l) == IF l = <<>> THEN 0 ELSE Head(l)[2] + Width(Tail(l))
RECURSIVE StartOf(_, _)
StartOf(l, name) == IF Head(l)[1] = name THEN 0 ELSE Head(l)[2] + StartOf(Tail(l), name)
Names(l) == {l[i][1] : i \in 1..Len(l)}
IndexOf(l, name) == CHOOSE i \in 1..Len(l) : l[i][1] = name
(* evaluated once: field -> <<first, last>> character *)
Pos == [f \in Ifaces |-> LET l == LayoutOf(f) IN
          [n \in Names(l) |-> LET s == StartOf(l, n) IN <<s + 1, s + l[IndexOf(l, n)][2]>>]]
At(f, n, msg) == SubSeq(msg, Pos[f][n][1], Pos[f][n][2])
LengthsAsPublished == \A f \in Ifaces : Width(LayoutOf(f)) = PubLength(f)

(* -- numbers -- *)
RECURSIVE Strip(_)
Strip(t) == IF Len(t) > 1 /\ SubSeq(t, 1, 1) = "0" THEN Strip(SubSeq(t, 2, Len(t))) ELSE t
(* form of a price: <<leading characters that are no digits (sign or unused), decimals>> *)
RiskFree(isin) == SubSeq(isin, 1, 6) = "KR4169"
PriceForm(f, tr, isin) ==
    CASE Stock(f) -> [sign |-> FALSE, decimals |-> 0, norm |-> 0]
      [] ~Stock(f) /\ SubSeq(tr, 3, 5) \in {"04F", "05F", "10F"} -> [sign |-> TRUE, decimals |-> 0, norm |-> 1]
      [] ~Stock(f) /\ SubSeq(tr, 3, 5) \notin {"04F", "05F", "10F"} /\ RiskFree(isin) -> [sign |-> TRUE, decimals |-> 3, norm |-> 0]
      [] OTHER -> [sign |-> TRUE, decimals |-> 2, norm |-> 0]
(* price text -> signed integer text in the smallest unit *)
Price(pf, t) ==
    LET n == Len(t)
        body == IF pf.sign THEN SubSeq(t, 2, n) ELSE SubSeq(t, 3, n) \* sign, or two unused characters
        m == Len(body)
        digits == IF pf.decimals = 0 THEN body ELSE SubSeq(body, 1, m - pf.decimals - 1) \o SubSeq(body, m - pf.decimals + 1, m)
        v == Strip(digits)
    IN IF pf.sign /\ SubSeq(t, 1, 1) # "0" /\ v # "0" THEN "-" \o v ELSE v
RECURSIVE Pad(_, _)
Pad(t, n) == IF Len(t) < n THEN Pad("0" \o t, n) ELSE t
(* the integer text as a real number with four decimals, d of its digits being decimals *)
Real4(v, d) == LET neg == SubSeq(v, 1, 1) = "-"
                   a == Pad(IF neg THEN SubSeq(v, 2, Len(v)) ELSE v, d + 1)
                   k == Len(a)
                   frac == SubSeq(a, k - d + 1, k)
                   z == SubSeq("0000", 1, 4 - d)
               IN (IF neg THEN "-" ELSE "") \o SubSeq(a, 1, k - d) \o "." \o frac \o z
TradeSide(c) == CASE c = "0" -> "Undefined" [] c = "1" -> "Sell" [] OTHER -> "Buy"

(* -- meaning -- *)
WellFormed(f, msg) ==
    /\ Len(msg) = PubLength(f)
    /\ SubSeq(msg, Len(msg), Len(msg)) = "~"
    /\ \A i \in Pos[f]["isin"][1]..Pos[f]["isin"][2] : SubSeq(msg, i, i) \notin {" ", "^", "~"}
SideLevel(f, pf, msg, n, s) ==
    <<Price(pf, At(f, L(n, s \o "p"), msg)), Strip(At(f, L(n, s \o "q"), msg)),
      IF Extra(f) = "count" THEN Strip(At(f, L(n, s \o "c"), msg)) ELSE "none",
      IF Extra(f) = "lp" THEN Strip(At(f, L(n, s \o "l"), msg)) ELSE "none">>
Decode(f, cut, cum, msg) ==
    LET isin == At(f, "isin", msg)
        pf == PriceForm(f, SubSeq(msg, 1, 5), isin)
        tp == IF Trade(f) THEN Price(pf, At(f, "tprice", msg)) ELSE "none"
    IN [isin |-> isin, time |-> At(f, "time", msg),
        decimals |-> pf.decimals, norm |-> pf.norm,
        tprice |-> tp,
        treal |-> IF f = "IFMSRPD0036" THEN Real4(tp, pf.decimals + pf.norm) ELSE "none",
        tqty |-> IF Trade(f) THEN Strip(At(f, "tqty", msg)) ELSE "none",
        side |-> IF Trade(f) THEN TradeSide(At(f, "side", msg)) ELSE "none",
        cum |-> IF Trade(f) /\ cum THEN Strip(At(f, "cum", msg)) ELSE "none",
        cut |-> cut,
        ask |-> [n \in 1..cut |-> SideLevel(f, pf, msg, n, "a")],
        bid |-> [n \in 1..cut |-> SideLevel(f, pf, msg, n, "b")]]

(* -- which interface a transaction code belongs to -- *)
Codes(first, marks, last) == {first \o m \o last : m \in marks}
TrCodes == [f \in Ifaces \cup {"IFMSRPD0004", "IFMSRPD0023", "IFMSRPD0027", "IFMSRPD0029"} |->
    CASE f = "IFMSRPD0023" -> {"B601B", "B601K"}
      [] f = "IFMSRPD0027" -> {"A301B", "A301M", "A301K"}
      [] f = "IFMSRPD0029" -> {"G701B", "G701K"}
      [] f = "IFMSRPD0002" -> {"B601S", "B601Q", "B601X"}
      [] f = "IFMSRPD0003" -> {"B702S", "B703S", "B704S"}
      [] f = "IFMSRPD0004" -> {"A301S", "A302S", "A303S", "A304S", "A301Q", "A301X"}
      [] f = "IFMSRPD0036" -> Codes("A3", {"01","02","03","04","05","06","07","08","09","10","11","12","13","14","15","16"}, "F")
      [] f = "IFMSRPD0034" -> Codes("B6", {"01","02","03","06","07","08","09","10","11","12","13","14","15","16"}, "F")
      [] f = "IFMSRPD0035" -> {"B604F", "B605F"}
      [] f = "IFMSRPD0037" -> Codes("G7", {"01","02","03","06","07","08","09","10","11","12","13","15","16"}, "F")
      [] f = "IFMSRPD0038" -> {"G704F", "G705F"}]

(* -- decoding into a caller's buffer -- *)
VARIABLES buf,  \* kind -> what the buffer of that kind holds (Empty before the first success)
          cap   \* kind -> number of levels the buffer was made with
kvars == <<buf, cap>>
Empty == [isin |-> ""]
Kinds == {"quote", "tradequote", "trade"}
Fits(f, cut) == MaxLevel(f) = 0 \/ cut <= cap[Kind(f)]
KInit(c) == buf = [k \in Kinds |-> Empty] /\ cap = [k \in Kinds |-> c]
Accepts(f, cut, msg) == WellFormed(f, msg) /\ Fits(f, cut)
Into(f, cut, cum, msg) ==
    /\ buf' = IF Accepts(f, cut, msg) THEN [buf EXCEPT ![Kind(f)] = Decode(f, cut, cum, msg)] ELSE buf
    /\ UNCHANGED cap
=============================================================================
