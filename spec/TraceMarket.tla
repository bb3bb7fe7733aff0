----------------------------- MODULE TraceMarket -----------------------------
(* Recorded histories of a market.  Values and ratios are logged as natural logarithms, in millionths, relative to the
   last quote. *)
EXTENDS Market, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES m, l
vars == <<m, l>>
E == Log[l]
(* the natural logarithm of k/16 in millionths *)
Ln == <<-2772589, -2079442, -1673976, -1386294, -1163151, -980829, -826679, -693147, -575364, -470004, -374693, -287682, -207639,
        -133531, -64539, 0, 60625, 117783, 171850, 223144, 271934, 318454, 362905, 405465, 446287, 485508, 523248, 559616, 594707,
        628609, 661398, 693147, 723919, 753772, 782759, 810930, 838329, 864997, 890973, 916291>>
LogOf(f) == LET RECURSIVE sum(_)
                sum(k) == IF k = 0 THEN 0 ELSE sum(k - 1) + f[k] * Ln[k]
            IN sum(40)
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
Fits(x) ==
    /\ E.e = x.e
    /\ Len(E.ps) = Len(x.ps) /\ Len(E.ds) = Len(x.ds)
    /\ \A i \in 1..Len(x.ps) : E.ps[i].at = x.ps[i].at /\ Near(E.ps[i].v, LogOf(x.ps[i].f), 60)
    /\ \A j \in 1..Len(x.ds) :
         /\ Len(E.ds[j].a) = Len(x.ds[j].a)
         /\ \A i \in 1..Len(x.ds[j].a) : Near(E.ds[j].a[i], 10000 * x.ds[j].a[i], 20)
         /\ \A i \in 1..Len(E.ds[j].r) : Near(E.ds[j].r[i].v, LogOf(Ratio(x.ds[j], E.ds[j].r[i].n)), 20)
World(x) == [e |-> x.e, ds |-> [j \in 1..Len(x.ds) |-> [ex |-> x.ds[j].ex, a |-> x.ds[j].a, att |-> x.ds[j].att, asof |-> x.e]],
             ps |-> [i \in 1..Len(x.ps) |-> [div |-> x.ps[i].div, q |-> x.ps[i].q, at |-> x.ps[i].at, f |-> NoF, att |-> x.ps[i].att]]]
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ \/ E.op = "new" /\ m' = World(E.m)
            \/ /\ E.op = "step"
               /\ E.ok = (IF E.o.op = "bump" /\ ~BumpOk(E.o.lo, E.o.hi) THEN "no" ELSE "yes")
               /\ m' = Does(m, E.o) /\ Fits(m')
TInit == m = <<>> /\ l = 1
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
