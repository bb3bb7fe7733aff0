----------------------------- MODULE TraceMatch -----------------------------
EXTENDS Match, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Log[l]
A == E.a
P == E.p
Tab == [k \in {<<r.t, r.k>> : r \in Range(E.tab)} |-> (CHOOSE r \in Range(E.tab) : <<r.t, r.k>> = k).v]
Same(list, sel) == Range(list) = Range(Codes(sel))
Names(list, got) == IF Unknown \in Range(list) THEN got = Unknown ELSE got = list
X == P[Len(P)]
Ask ==
    /\ A.discount = Discount(Tab, X) /\ A.index = Index(Tab, X) /\ A.crs = Crs(Tab, X) /\ A.flocrs = FloCrs(Tab, X)
    /\ Names(Collateral(Tab, X), A.coll) /\ Names(Borrowing(Tab, X), A.borrow)
    /\ A.known = Known(Tab, P) /\ (A.known => Range(A.all) = AllCurves(Tab, P))
    /\ A.short = Shortest(P) /\ A.long = Longest(P)
    /\ Range(A.allund) = AllUnd(P) /\ Range(A.allvol) = AllVol(P) /\ Range(A.alltypes) = AllTypes(P) /\ Range(A.allfx) = AllFx(P)
    /\ Range(A.allquanto) = {q[1] \o "/" \o q[2] : q \in AllQuanto(P)} /\ Range(A.allccy) = AllCcys(P)
    /\ A.codes = Codes(P) /\ A.len
    /\ \A u \in Range(A.using) : u.ok = UsingKnown(Tab, P, Range(u.ex)) /\ (u.ok => Same(u.r, Using(Tab, P, u.c, Range(u.ex))))
    /\ \A u \in Range(A.und) : Same(u.r, WithUnd(P, u.u, Range(u.ex)))
    /\ \A u \in Range(A.ccy) : Same(u.r, WithCcy(P, u.c))
    /\ \A u \in Range(A.types) : Same(u.r, WithTypes(P, Range(u.t)))
    /\ \A u \in Range(A.mat) : Same(u.upto, Upto(P, u.m, Range(u.ex))) /\ Same(u.over, Over(P, u.m, Range(u.ex)))
TNext == l <= Len(Log) /\ Ask /\ l' = l + 1
TInit == l = 1
TSpec == TInit /\ [][TNext]_l
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
