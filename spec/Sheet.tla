------------------------------- MODULE Sheet --------------------------------
(* The result sheet of one instrument: figures are put in by name and code, and the whole sheet can be shown in another
   currency.  Amounts are small integers, so every product with a rate is exact. *)
EXTENDS Integers, Sequences, FiniteSets
Scalars == {"delta", "gamma", "vega", "rho", "div"}
Vectors == {"vegas", "rhos", "divs"}
Matrices == {"vegam"}
Names == Scalars \cup Vectors \cup Matrices
SheetCodes == {"A", "B"}
SheetCcys == {"KRW", "USD", "EUR"}
Nothing == <<>>
(* what is not set is empty: the value per unit, the value, the exposures, theta and its days, the flows *)
NewSheet(unit, ccy) == [unit |-> unit, ccy |-> ccy, npv |-> Nothing, value |-> Nothing, fx |-> Nothing, theta |-> Nothing, day |-> Nothing, cash |-> Nothing,
                        fig |-> [n \in Names |-> [c \in SheetCodes |-> Nothing]]]
Shape(n, v) == IF n \in Scalars THEN <<v>> ELSE IF n \in Vectors THEN <<v, v + 1, -v>> ELSE <<v, 0, v + 2, 1 - v>>
Put(s, n, c, v) == [s EXCEPT !.fig[n][c] = Shape(n, v)]
(* the value per unit comes with its flows: amount [k] on day [k] with the chance [k] halves; what is expected on a day is added up *)
FlowDays == <<1, 3, 1>>
FlowHalves == <<2, 1, 2>>
FlowAmounts(v) == <<2 * v, 4 * v, 1 - v>>
RECURSIVE FlowSum(_, _, _)
FlowSum(v, d, k) == IF k = 0 THEN 0 ELSE FlowSum(v, d, k - 1) + (IF FlowDays[k] = d THEN (FlowAmounts(v)[k] * FlowHalves[k]) \div 2 ELSE 0)
Expected(s) == IF s.npv = Nothing THEN Nothing ELSE <<FlowSum(s.npv[1], 1, 3), FlowSum(s.npv[1], 3, 3)>>
SetNpv(s, v) == [s EXCEPT !.npv = <<v>>]
(* the value is that of the whole position *)
CanValue(s) == s.npv # Nothing
SetValue(s) == [s EXCEPT !.value = <<s.npv[1] * s.unit>>]
SetFx(s, m) == [s EXCEPT !.fx = <<m>>]
SetTheta(s, v) == [s EXCEPT !.theta = <<v>>]
SetDay(s, d) == [s EXCEPT !.day = <<d>>]
(* declares the currency without converting *)
Declare(s, c) == [s EXCEPT !.ccy = c]
SetCash(s, v) == [s EXCEPT !.cash = <<v>>]
Times(q, r) == [k \in 1..Len(q) |-> q[k] * r]
TimesMap(m, r) == [c \in DOMAIN m |-> m[c] * r]
(* in another currency every amount of money is multiplied once; the value per unit and the flows stay in the currency of the instrument *)
Converted(s, ccy, r) ==
    IF ccy = s.ccy THEN s
    ELSE [s EXCEPT !.ccy = ccy, !.value = Times(@, r), !.theta = Times(@, r), !.fx = IF @ = Nothing THEN @ ELSE <<TimesMap(@[1], r)>>,
                   !.fig = [n \in Names |-> [c \in SheetCodes |-> Times(s.fig[n][c], r)]]]
(* converting twice is converting once by the product, and nothing appears or vanishes *)
SheetLaws(s) ==
    /\ \A c \in SheetCcys, d \in SheetCcys : (c # s.ccy /\ d # c /\ d # s.ccy) => Converted(Converted(s, c, 2), d, 3) = Converted(s, d, 6)
    /\ \A c \in SheetCcys : LET t == Converted(s, c, 5) IN
         /\ \A n \in Names, k \in SheetCodes : Len(t.fig[n][k]) = Len(s.fig[n][k])
         /\ t.npv = s.npv /\ t.day = s.day /\ t.cash = s.cash /\ t.unit = s.unit
    /\ Converted(s, s.ccy, 7) = s
=============================================================================
