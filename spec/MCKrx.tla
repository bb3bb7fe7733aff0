------------------------------- MODULE MCKrx -------------------------------
(* Messages generated from the layouts, and histories of them through one set of buffers. *)
EXTENDS KrxMsg, Json
CONSTANTS Patterns,   \* how the fields of a message are filled
          Faults,     \* corruptions tried
          Cuts(_),    \* depths asked for, per interface
          Caps,       \* buffer sizes
          Isins, MaxSteps, AllCodes, Buffered
Digit(n) == SubSeq("0123456789", (n % 10) + 1, (n % 10) + 1)
RECURSIVE Digits(_, _, _, _)
(* w digits of field i under a pattern, j-th from the left *)
Digits(p, i, j, w) ==
    IF j > w THEN "" ELSE
    (CASE p = "zero" -> "0"
       [] p = "nine" -> "9"
       [] p = "one" -> IF j = w THEN "1" ELSE "0"
       [] p = "top" -> IF j = 1 THEN "1" ELSE "0"
       [] p = "dist" -> Digit(IF j = 1 THEN ((i * 7) % 9) + 1 ELSE i + 3 * j + (i * j) \div 5)
       [] p = "half" -> IF j * 2 <= w THEN "0" ELSE Digit(i * 3 + j * j)
       [] p = "neg" -> Digit(i * 5 + 7 * j + (i * i) \div 7)) \o Digits(p, i, j + 1, w)
Sides == [zero |-> "0", nine |-> "1", one |-> "2", top |-> "1", dist |-> "2", half |-> "0", neg |-> "1"]
Times == [zero |-> "000000000000", nine |-> "235959999999", one |-> "000000000001", top |-> "100000000000",
          dist |-> "104939081108", half |-> "090000102030", neg |-> "154500999000"]
PriceText(pf, p, i, w) ==
    IF pf.sign
    THEN LET sg == IF p = "neg" /\ i % 2 = 0 THEN "-" ELSE "0"
             ds == Digits(p, i, 1, w - 1)
         IN sg \o (IF pf.decimals = 0 THEN ds
                   ELSE SubSeq(ds, 1, w - 2 - pf.decimals) \o "." \o SubSeq(ds, w - 1 - pf.decimals, w - 2))
    ELSE "00" \o Digits(p, i, 1, w - 2)
IsPrice(n) == \/ n \in {"tprice", "near", "far", "open", "high", "low", "prev", "upper", "lower", "estp", "midp"}
              \/ SubSeq(n, Len(n), Len(n)) = "p"
FieldText(f, tr, isin, p, i, n, w) ==
    LET pf == PriceForm(f, tr, isin) IN
    CASE n = "cat" -> SubSeq(tr, 1, 2) [] n = "info" -> SubSeq(tr, 3, 5) [] n = "seq" -> "        "
      [] n = "board" -> "G1" [] n = "session" -> "40" [] n = "isin" -> isin
      [] n = "time" -> Times[p] [] n = "side" -> Sides[p] [] n = "end" -> "~"
      [] IsPrice(n) -> PriceText(pf, p, i, w)
      [] OTHER -> Digits(p, i, 1, w)
RECURSIVE Fill(_, _, _, _, _, _)
Fill(f, tr, isin, p, l, i) ==
    IF l = <<>> THEN "" ELSE FieldText(f, tr, isin, p, i, Head(l)[1], Head(l)[2]) \o Fill(f, tr, isin, p, Tail(l), i + 1)
Trs(f) == IF AllCodes THEN TrCodes[f]
          ELSE CASE f = "IFMSRPD0002" -> {"B601S"} [] f = "IFMSRPD0003" -> {"B703S"} [] f = "IFMSRPD0034" -> {"B601F", "B610F"}
                 [] f = "IFMSRPD0035" -> {"B604F"} [] f = "IFMSRPD0036" -> {"A301F", "A305F"} [] f = "IFMSRPD0037" -> {"G703F", "G710F"}
                 [] f = "IFMSRPD0038" -> {"G705F"}
(* evaluated once *)
Msgs == [f \in Ifaces |-> [tr \in Trs(f) |-> [sn \in Isins |-> [p \in Patterns |-> Fill(f, tr, sn, p, LayoutOf(f), 1)]]]]
Replace(m, k, c) == SubSeq(m, 1, k - 1) \o c \o SubSeq(m, k + 1, Len(m))
Corrupt(f, m, c) ==
    LET n == Len(m) IN
    CASE c = "none" -> m
      [] c = "cut1" -> SubSeq(m, 1, n - 1)
      [] c = "lost" -> SubSeq(m, 1, n - 2) \o "~"
      [] c = "half" -> SubSeq(m, 1, n \div 2)
      [] c = "empty" -> ""
      [] c = "long" -> m \o "~"
      [] c = "inserted" -> SubSeq(m, 1, n - 1) \o "0~"
      [] c = "noend" -> Replace(m, n, "0")
      [] c = "blankisin" -> Replace(m, Pos[f]["isin"][1] + 5, " ")
      [] c = "binisin" -> Replace(m, Pos[f]["isin"][1] + 3, "^")
      [] c = "binhead" -> Replace(m, Pos[f]["board"][1], "^")   \* still well formed
      [] c = "binlong" -> Replace(m, Pos[f]["board"][1], "^") \o "~"
      [] c = "endinside" -> Replace(m, Pos[f]["session"][1], "~") \* still well formed
VARIABLES hist, pick
vars == <<kvars, hist, pick>>
Init == /\ \E c \in Caps : KInit(c)
        /\ hist = <<>>
        /\ pick \in Ifaces \X Patterns
Step(f, p) == \E tr \in Trs(f), sn \in Isins, c \in Faults, cut \in Cuts(f), cum \in (IF Trade(f) THEN BOOLEAN ELSE {FALSE}), b \in Buffered :
    LET m == Corrupt(f, Msgs[f][tr][sn][p], c) IN
    /\ Into(f, cut, cum, m)
    /\ hist' = Append(hist, [iface |-> f, cut |-> cut, cum |-> cum, msg |-> m, buf |-> b,
                             ok |-> IF b THEN Accepts(f, cut, m) ELSE WellFormed(f, m)])
    /\ UNCHANGED pick
Next == /\ Len(hist) < MaxSteps
        /\ IF hist = <<>> THEN Step(pick[1], pick[2]) ELSE \E f \in {g \in Ifaces : Kind(g) = Kind(pick[1])}, p \in Patterns : Step(f, p)
Spec == Init /\ [][Next]_vars
Last == hist'[Len(hist')]
(* what the last call must yield: the decoded message, or what the buffer held before *)
Expect == IF Last.buf THEN buf'[Kind(Last.iface)]
          ELSE IF Last.ok THEN Decode(Last.iface, Last.cut, Last.cum, Last.msg) ELSE Empty
Cover == Len(hist') < MaxSteps \/ PrintT("@@" \o ToJson([cap |-> cap["quote"], h |-> hist', exp |-> Expect]))
PublishedLengths == hist # <<>> \/ LengthsAsPublished
CutsAll(f) == 0..MaxLevel(f)
CutsFew(f) == IF MaxLevel(f) = 0 THEN {0} ELSE {1, 3, MaxLevel(f)}
=============================================================================
