------------------------------ MODULE MCMatch ------------------------------
(* A portfolio is put together from the pool under tables that know all, all but a few, or only some of the curves, every key
   with its own curve or several sharing one; every question about it is answered. *)
EXTENDS Match, Json, TLC
CONSTANTS Depth, Miss, Sorted, Emit
VARIABLES m, miss, p
vars == <<m, miss, p>>
Nm == <<"C1", "C2", "C3", "C4", "C5", "C6", "C7", "C8", "C9", "C10", "C11", "C12", "C13", "C14", "C15">>
(* own: a curve each; home: one per currency or issuer; twist: names shared across roles and currencies *)
Home == <<"C1", "C2", "C1", "C2", "C1", "C1", "C2", "C3", "C3", "C4", "C2", "C5", "C2", "C4", "C2">>
Twist == <<"C1", "C2", "C2", "C3", "C1", "C2", "C3", "C1", "C2", "C3", "C1", "C3", "C1", "C2", "C3">>
NameOf(k) == IF m = "own" THEN Nm[k] ELSE IF m = "home" THEN Home[k] ELSE Twist[k]
Tab == [k \in {Keys[i] : i \in 1..Len(Keys)} \ {Keys[i] : i \in miss} |-> NameOf(CHOOSE i \in 1..Len(Keys) : Keys[i] = k)]
N == 1..Len(Pool)
P == [i \in DOMAIN p |-> Pool[p[i]]]
Upon == UNION {{S \in SUBSET (1..Len(Keys)) : Cardinality(S) = k} : k \in 0..Miss}
Init == m \in {"own", "home", "twist"} /\ miss \in Upon \cup {{1, 2}, {10, 11}, {12, 13}, 1..Len(Keys)} /\ p = <<>>
Next == Len(p) < Depth /\ (\E i \in N : (\A j \in DOMAIN p : p[j] # i /\ (Sorted => p[j] < i)) /\ p' = Append(p, i)) /\ UNCHANGED <<m, miss>>
Spec == Init /\ [][Next]_vars
Exs == <<{}, {"Stock"}, {"Futures", "IRS", "CRS"}, {"Bond", "VanillaCall", "FxFutures"}>>
Ms == {1, 100, 200, 299, 300, 1000}
(* what the answers owe each other *)
Laws ==
    /\ \A x \in DOMAIN p : Unknown \notin Roles(Tab, P[x]) => Roles(Tab, P[x]) \ {Dummy} \subseteq AllCurves(Tab, P)
    /\ Known(Tab, P) => \A c \in AllCurves(Tab, P) : Using(Tab, P, c, {}) # <<>>
    /\ Known(Tab, P) => \A x \in DOMAIN p : Roles(Tab, P[x]) = {Dummy} \/ \E c \in AllCurves(Tab, P) : P[x].code \in Range(Codes(Using(Tab, P, c, {})))
    /\ \A k \in Ms : Len(Upto(P, k, {})) + Len(Over(P, k, {})) = Len(p)
    /\ Longest(P) # 0 => \A i \in DOMAIN p : Shortest(P) <= P[i].mat /\ P[i].mat <= Longest(P)
    /\ UNION {Range(Codes(WithUnd(P, u, {}))) : u \in AllUnd(P)} = {P[i].code : i \in {j \in DOMAIN p : P[j].und # <<>>}}
T1 == {[t |-> k[1], k |-> k[2], v |-> Tab[k]] : k \in DOMAIN Tab}
Ask(Q, pp, x) == [discount |-> Discount(Q, x), index |-> Index(Q, x), crs |-> Crs(Q, x), flocrs |-> FloCrs(Q, x),
    coll |-> Collateral(Q, x), borrow |-> Borrowing(Q, x),
    known |-> Known(Q, pp), all |-> IF Known(Q, pp) THEN AllCurves(Q, pp) ELSE {},
    using |-> {[c |-> c, ex |-> ex, ok |-> UsingKnown(Q, pp, ex), r |-> IF UsingKnown(Q, pp, ex) THEN Codes(Using(Q, pp, c, ex)) ELSE <<>>] : c \in {"C1", "C2", "C3", "C10", "C12", "none"}, ex \in Range(Exs)},
    und |-> {[u |-> u, ex |-> ex, r |-> Codes(WithUnd(pp, u, ex))] : u \in {"S1", "S2", "S3"}, ex \in Range(Exs)},
    ccy |-> {[c |-> c, r |-> Codes(WithCcy(pp, c))] : c \in {"KRW", "USD", "EUR"}},
    types |-> {[t |-> ex, r |-> Codes(WithTypes(pp, ex))] : ex \in Range(Exs)},
    mat |-> {[m |-> k, ex |-> ex, upto |-> Codes(Upto(pp, k, ex)), over |-> Codes(Over(pp, k, ex))] : k \in Ms, ex \in {{}, {"Bond", "VanillaCall", "FxFutures"}}},
    short |-> Shortest(pp), long |-> Longest(pp), allund |-> AllUnd(pp), allvol |-> AllVol(pp), alltypes |-> AllTypes(pp), allfx |-> AllFx(pp),
    allquanto |-> AllQuanto(pp), allccy |-> AllCcys(pp)]
Cover == Emit => LET pp == [i \in DOMAIN p' |-> Pool[p'[i]]] IN PrintT("@@" \o ToJson([tab |-> T1, p |-> pp, a |-> Ask(Tab, pp, pp[Len(pp)])]))
=============================================================================
