-------------------------------- MODULE Sched --------------------------------
(* Coupon schedules.  Times are [n, s, o] in one offset. *)
EXTENDS HolCal
T == INSTANCE Tenor
Freqs == {"daily", "weekly", "biweekly", "semimonthly", "monthly", "semiquarterly", "quarterly", "triannually", "semiannually", "annually"}
Step(f) == CASE f = "daily" -> [u |-> "D", k |-> 1] [] f = "weekly" -> [u |-> "W", k |-> 1]
             [] f \in {"biweekly", "semimonthly"} -> [u |-> "W", k |-> 2] [] f = "monthly" -> [u |-> "M", k |-> 1]
             [] f = "semiquarterly" -> [u |-> "M", k |-> 2] [] f = "quarterly" -> [u |-> "M", k |-> 3]
             [] f = "triannually" -> [u |-> "M", k |-> 4] [] f = "semiannually" -> [u |-> "M", k |-> 6]
             [] f = "annually" -> [u |-> "Y", k |-> 1]
Before(a, b) == a.n < b.n \/ (a.n = b.n /\ a.s < b.s)
(* the i-th regular date from an anchor, always stepped from the anchor itself *)
Regular(t, f, i) == At(t, T!Shift([n |-> t.n, s |-> t.s], Step(f).u, i * Step(f).k).n)
RECURSIVE Ahead(_, _, _, _), Back(_, _, _, _)
Ahead(eff, mat, f, i) == IF Before(Regular(eff, f, i), mat) THEN <<Regular(eff, f, i)>> \o Ahead(eff, mat, f, i + 1) ELSE <<>>
Back(eff, mat, f, i) == IF Before(eff, Regular(mat, f, -i)) THEN Back(eff, mat, f, i + 1) \o <<Regular(mat, f, -i)>> ELSE <<>>
(* the unadjusted dates strictly inside the life *)
Inner(fwd, eff, mat, f) == IF fwd THEN Ahead(eff, mat, f, 1) ELSE Back(eff, mat, f, 1)
PlusDays(t, d) == At(t, t.n + d)
Build(fwd, eff, mat, cs, c, f, fg, pg) ==
    IF fg < 0 \/ pg < 0 THEN [ok |-> FALSE, rows |-> <<>>]
    ELSE IF ~Before(eff, mat) THEN [ok |-> TRUE, rows |-> <<>>]
    ELSE LET inner == Inner(fwd, eff, mat, f)
             k == Len(inner) + 1
             adj == [i \in 1..Len(inner) |-> Adjust(cs, inner[i], c)]
             start(i) == IF i = 1 THEN eff ELSE adj[i - 1]
             end(i) == IF i = k THEN mat ELSE adj[i]
             rows == [i \in 1..k |-> [fix |-> Adjust(cs, PlusDays(start(i), -fg), "preceding"), start |-> start(i), end |-> end(i),
                                      pay |-> IF i = k THEN mat ELSE Adjust(cs, PlusDays(end(i), pg), c)]]
         IN IF \E i \in 1..k : ~Before(rows[i].start, rows[i].end) THEN [ok |-> FALSE, rows |-> <<>>]
            ELSE [ok |-> TRUE, rows |-> rows]
(* what a schedule must be *)
Tiles(r, eff, mat, cs, c) ==
    r.ok /\ r.rows # <<>> =>
      LET k == Len(r.rows) IN
      /\ r.rows[1].start = eff /\ r.rows[k].end = mat /\ r.rows[k].pay = mat
      /\ \A i \in 1..(k - 1) : r.rows[i].end = r.rows[i + 1].start /\ ~Before(r.rows[i].pay, r.rows[i].end)
      /\ \A i \in 1..k : Before(r.rows[i].start, r.rows[i].end) /\ ~Before(r.rows[i].start, r.rows[i].fix) /\ ~Closed(cs, r.rows[i].fix)
      /\ c # "unadjusted" => \A i \in 1..(k - 1) : ~Closed(cs, r.rows[i].end) /\ ~Closed(cs, r.rows[i].pay)
=============================================================================
