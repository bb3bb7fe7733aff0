------------------------------ MODULE MCSheet -------------------------------
(* Every short history of a result sheet. *)
EXTENDS Sheet, Json, TLC
CONSTANTS MaxOps, Values, Rates, Emit
VARIABLES s0, s, hist
ValuesQ == {0, 3, -2}
ValuesB == {0, 3}
E(op, n, c, v) == [op |-> op, n |-> n, c |-> c, v |-> v]
NameSeq == <<"delta", "gamma", "vega", "rho", "div", "vegas", "rhos", "divs", "vegam">>
(* a sheet with every figure on it *)
Full(u, c) == [NewSheet(u, c) EXCEPT !.npv = <<6>>, !.value = <<6 * u>>, !.fx = <<[x \in {"KRW", "USD"} |-> IF x = "KRW" THEN 4 ELSE -5]>>, !.theta = <<-7>>, !.day = <<2>>,
               !.cash = <<9>>, !.fig = [n \in Names |-> [k \in SheetCodes |-> Shape(n, (CHOOSE i \in 1..9 : NameSeq[i] = n) * (IF k = "A" THEN 1 ELSE -3))]]]
Init == hist = <<>> /\ s0 \in {NewSheet(u, c) : u \in {1, 10}, c \in {"KRW", "USD"}} \cup {Full(10, "KRW"), Full(1, "USD")} /\ s = s0
Do(t, e) == UNCHANGED s0 /\ s' = t /\ hist' = Append(hist, e)
FxMap(c, v) == [x \in {c, "KRW"} |-> IF x = c THEN v ELSE v + 1]
Next ==
    /\ Len(hist) < MaxOps
    /\ \/ \E n \in Names, c \in SheetCodes, v \in Values : Do(Put(s, n, c, v), E("put", n, c, v))
       \/ \E v \in Values : \/ Do(SetNpv(s, v), E("npv", "", "", v))
                            \/ Do(SetTheta(s, v), E("theta", "", "", v))
                            \/ Do(SetDay(s, v), E("day", "", "", v))
                            \/ Do(SetCash(s, v), E("cash", "", "", v))
                            \/ \E c \in SheetCcys \ {"KRW"} : Do(SetFx(s, FxMap(c, v)), E("fx", "", c, v))
       \/ IF CanValue(s) THEN Do(SetValue(s), E("value", "", "", 1)) ELSE Do(s, E("value", "", "", 0))
       \/ \E c \in SheetCcys : Do(Declare(s, c), E("declare", "", c, 0))
       \/ \E c \in SheetCcys, r \in Rates : Do(Converted(s, c, r), E("convert", "", c, r))
Spec == Init /\ [][Next]_<<s0, s, hist>>
Laws == SheetLaws(s) /\ (s.npv # Nothing => Expected(s)[1] + Expected(s)[2] = 1 + 3 * s.npv[1])
Cover == Emit => PrintT("@@" \o ToJson([sheet |-> s0, h |-> hist', a |-> s', exp |-> Expected(s')]))
View == <<s0, s, Len(hist)>>
=============================================================================
