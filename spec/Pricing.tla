------------------------------- MODULE Pricing -------------------------------
(* What futures, options, bonds of a given yield and bond futures are worth.  A value is an expression over numbers read off
   the market (leaves); functions that are not arithmetic stand in it by name.
     num n/d; leaf name arg; add sub mul div of two; fn name of one argument; pow base exponent *)
EXTENDS CashFlow
Num(n, d) == [o |-> "num", n |-> n, d |-> d, a |-> <<>>]
Leaf(s, x) == [o |-> "leaf", n |-> s, d |-> x, a |-> <<>>]
Op(o, x, y) == [o |-> o, n |-> 0, d |-> 0, a |-> <<x, y>>]
Fn(f, x) == [o |-> "fn", n |-> f, d |-> 0, a |-> <<x>>]
Add(x, y) == Op("add", x, y)
Sub(x, y) == Op("sub", x, y)
Mul(x, y) == Op("mul", x, y)
Dvd(x, y) == Op("div", x, y)
Pow(x, y) == Op("pow", x, y)
N0 == Num(0, 1)
N1 == Num(1, 1)
-----------------------------------------------------------------------------
(* to maturity: discount factors of curves, time, what dividends leave of the price *)
DF(curve) == Leaf("df", curve)
Spot == Leaf("spot", 0)
Time == Leaf("time", 0)
Rest == Leaf("rest", 0)
Forward == Mul(Mul(Spot, Rest), Dvd(DF("borrow"), DF("coll")))
(* one unit of the underlying currency in the currency of the futures *)
FxForward == Mul(Leaf("fx", 0), Dvd(DF("flo"), DF("fix")))
(* an option on the forward; q: it pays in a currency that is not the underlying's *)
Vol(strike) == Fn("vol", Dvd(strike, Forward))
Shift(strike, q) == IF q THEN Mul(Mul(Vol(strike), Time), Mul(Fn("fxvol", Dvd(strike, Forward)), Leaf("corr", 0))) ELSE N0
QForward(strike, q) == IF q THEN Mul(Forward, Fn("exp", Sub(N0, Shift(strike, q)))) ELSE Forward
Dev(strike) == Mul(Vol(strike), Fn("sqrt", Time))
D1(strike, q) == Add(Dvd(Sub(Fn("ln", Dvd(Forward, strike)), Shift(strike, q)), Dev(strike)), Dvd(Dev(strike), Num(2, 1)))
D2(strike, q) == Sub(D1(strike, q), Dev(strike))
Cdf(x) == Fn("cdf", x)
Call(strike, q) == Mul(DF("disc"), Sub(Mul(QForward(strike, q), Cdf(D1(strike, q))), Mul(strike, Cdf(D2(strike, q)))))
Put(strike, q) == Mul(DF("disc"), Sub(Mul(strike, Cdf(Sub(N0, D2(strike, q)))), Mul(QForward(strike, q), Cdf(Sub(N0, D1(strike, q))))))
-----------------------------------------------------------------------------
(* the price of a bond of a yield at p (rules of the Korean exchange): the flows still to come (the day of pricing is over),
   discounted to the first of them by periods of compounding, and to p by the share of the period that is left *)
After(b, p, e) == SelectSeq(BondFlows(b, p, e), LAMBDA f : f.at.n > p.n)
MinOf(S) == CHOOSE x \in S : \A y \in S : NotAfter(x, y)
MaxOf(S) == CHOOSE x \in S : \A y \in S : NotAfter(y, x)
PerYear(f) == CASE f = "monthly" -> 12 [] f = "quarterly" -> 4 [] f = "semiannually" -> 2 [] f = "annually" -> 1
Yield == Leaf("yield", 0)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN N0 ELSE IF Len(s) = 1 THEN s[1] ELSE Add(Total(SubSeq(s, 1, Len(s) \div 2)), Total(SubSeq(s, (Len(s) \div 2) + 1, Len(s))))
KrxTerms(b, p, e, f, issue) ==
    LET fs == After(b, p, e)
        first == MinOf(Instants(fs))
        paid == {b.rows[i].pay : i \in {j \in 1..Len(b.rows) : b.rows[j].pay.n <= p.n}}
        last == IF paid = {} THEN issue ELSE MaxOf(paid)
        per == Add(N1, Dvd(Yield, Num(PerYear(f), 1)))
        part(i) == LET x == Frac("street", first, fs[i].at) * PerYear(f) IN Dvd(Leaf("flow", i), Pow(per, Num(x, 1000000)))
    IN IF fs = <<>> THEN N0
       ELSE Dvd(Total([i \in 1..Len(fs) |-> part(i)]),
                Add(N1, Mul(Dvd(Yield, Num(PerYear(f), 1)), Num(first.n - p.n, first.n - last.n))))
(* the standard bond of a bond future: of so many years, coupon in bp, and its price for a yield *)
Standard(years, coupon, f, y) ==
    LET n == years * PerYear(f)
        per == Add(N1, Dvd(y, Num(PerYear(f), 1))) IN
    Add(Total([i \in 1..n |-> Dvd(Num(coupon, 10000 * PerYear(f)), Pow(per, Num(i, 1)))]), Dvd(N1, Pow(per, Num(n, 1))))
Average(n) == Dvd(Total([i \in 1..n |-> Leaf("yield", i)]), Num(n, 1))
BondFuture(n, years, coupon, f) == Mul(Standard(years, coupon, f, Average(n)), DF("borrow"))
-----------------------------------------------------------------------------
(* identities between values, tested on numbers modulo a prime; functions are arbitrary, but the normal distribution is even *)
Pr == 46337
M(x) == x % Pr
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN 1 ELSE LET h == Power(x, k \div 2) IN IF k % 2 = 0 THEN M(h * h) ELSE M(M(h * h) * x)
Inv(x) == Power(x, Pr - 2)
Scramble(x, k) == M(M(M(x * 41) * M(x + k)) + 977 * k)
Code(s) == CASE s = "coll" -> 1 [] s = "borrow" -> 2 [] s = "disc" -> 3 [] s = "fix" -> 4 [] s = "flo" -> 5 [] OTHER -> 6
RECURSIVE Ev(_, _)
Ev(e, env) ==
    LET v(i) == Ev(e.a[i], env) IN
    CASE e.o = "num" -> M(M(e.n) * Inv(M(e.d)))
      [] e.o = "leaf" -> IF e.n = "df" THEN Scramble(env.s + Code(e.d), 7) ELSE IF e.n = "flow" THEN env.flow[e.d] ELSE IF e.n = "yield" THEN env.yield
                         ELSE Scramble(env.s + Len(e.n), IF e.n = "spot" THEN 3 ELSE IF e.n = "time" THEN 5 ELSE IF e.n = "rest" THEN 9 ELSE 11)
      [] e.o = "add" -> M(v(1) + v(2))
      [] e.o = "sub" -> M(v(1) - v(2))
      [] e.o = "mul" -> M(v(1) * v(2))
      [] e.o = "div" -> M(v(1) * Inv(v(2)))
      [] e.o = "pow" -> Power(v(1), M(e.a[2].n \div e.a[2].d))
      [] e.o = "fn" -> LET x == v(1) IN
            IF e.n = "cdf" THEN (IF x <= Pr \div 2 THEN Scramble(x, 13) ELSE M(1 - Scramble(Pr - x, 13)))
            ELSE Scramble(x, CASE e.n = "exp" -> 17 [] e.n = "ln" -> 19 [] e.n = "sqrt" -> 23 [] e.n = "vol" -> 29 [] OTHER -> 31)
=============================================================================
