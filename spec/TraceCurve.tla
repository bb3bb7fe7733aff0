------------------------------ MODULE TraceCurve ------------------------------
(* Recorded zero curves: rates and discount factors on the pillars after every bump, and discount factors at dates.  y is the
   logarithm of the discount factor with its sign changed. *)
EXTENDS Curve, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<c, l>>
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
Abs(n) == IF n < 0 THEN -n ELSE n
(* rate times time in parts per million *)
Times(r, t) == (r * (t \div 1000000)) + MulDiv(r, t % 1000000, 1000000)
(* how far the rate of a pillar may be off: rounding, and the rounding of the pillar's time where the given curve is steep *)
Steep(in) == IF Len(in.t) = 1 THEN 0 ELSE
    LET s == {(Abs(in.r[i + 1] - in.r[i]) * 40) \div (in.t[i + 1] - in.t[i]) : i \in 1..(Len(in.t) - 1)} IN CHOOSE x \in s : \A y \in s : y <= x
Same(x) ==
    /\ Len(E.v) = 29 /\ Len(E.df) = 29 /\ Len(E.y) = 29
    /\ \A i \in 1..29 :
         /\ Abs(E.v[i] - x.v[i]) <= 6 + x.tol
         /\ E.df[i] > 20000 => Abs(E.y[i] - Times(x.v[i], x.ts[i])) <= 4 + ((12 + x.tol) * (x.ts[i] \div 10000)) \div 100 + Abs(x.v[i]) \div 4000
At(n) == [n |-> n, s |-> c.e.s]
Tm(n) == Time(c.e, At(n))
Pl(s) == IF s = <<>> THEN -1 ELSE PlaceOf(c.ts, Tm(s[1]))
DateOk(a, b) == a = <<>> \/ b = <<>> \/ a[1] <= b[1]
TNext ==
    \/ /\ Op("new")
       /\ LET ts == TimesOf(E.e, Pillars)
              x == [e |-> E.e, ts |-> ts, v |-> Interpolated(E.in.t, E.in.r, ts), df |-> E.df, tol |-> 2 + Steep(E.in)]
          IN /\ Same(x) /\ c' = x
             /\ Len(E.ts) = 29 /\ \A i \in 1..29 : Abs(E.ts[i] - ts[i]) <= 14 + ts[i] \div 2500000
    \/ /\ Op("move") /\ c' = [c EXCEPT !.e = E.e]
    \/ /\ Op("time") /\ E.ok = (IF WinOk(E.lo, E.hi) THEN "yes" ELSE "no")
       /\ LET x == IF WinOk(E.lo, E.hi) THEN [c EXCEPT !.v = Bump(@, E.lo, E.hi, E.a)] ELSE c IN Same(x) /\ c' = [x EXCEPT !.df = E.df]
    \/ /\ Op("date") /\ E.ok = (IF DateOk(E.lo, E.hi) THEN "yes" ELSE "no")
       /\ LET x == IF DateOk(E.lo, E.hi) THEN [c EXCEPT !.v = Bump(@, Pl(E.lo), Pl(E.hi), E.a)] ELSE c IN Same(x) /\ c' = [x EXCEPT !.df = E.df]
    \/ /\ Op("ask") /\ UNCHANGED c
       /\ LET t == Tm(E.n) IN
          /\ E.ok = (t >= 0)
          /\ E.ok => LET p == Place(c.ts, t) IN Abs(E.df - Mix(c.df, p)) <= 4 + Mix(c.df, p) \div 300000
TInit == c = <<>> /\ l = 1
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
