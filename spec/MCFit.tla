-------------------------------- MODULE MCFit --------------------------------
(* Every small combination of parts for every constructor. *)
EXTENDS Fit, Json, TLC
CONSTANTS N, Deep
VARIABLE t
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
L == Seqs(1..3, N)
Init ==
    \/ \E n \in 0..3, days \in Opt(Seqs({-1, 4, 9}, 2)), times \in Opt(0..3), m \in Opt({0, 3}) :
         t = [k |-> "vector", n |-> n, days |-> days, times |-> times, market |-> m,
              v |-> Vector(n, days, IF times = <<>> THEN <<>> ELSE <<[i \in 1..times[1] |-> i]>>, m), from |-> VectorFrom(days)]
    \/ \E d \in L, n \in 0..(N + 1) : t = [k |-> "line", d |-> d, n |-> n, v |-> Line(d, n)]
    \/ \E d \in L, n \in 0..(N + 1) : t = [k |-> "rows", d |-> d, n |-> n, v |-> Rows(d, n)]
    \/ \E d \in Seqs(1..3, 3), x \in Seqs(1..3, 2) \cup {<<1, 2, 3>>, <<2, 3, 1>>}, r \in 0..4, c \in 0..4 :
         t = [k |-> "sheet", t |-> d, x |-> x, r |-> r, c |-> c, v |-> Sheet(d, x, r, c)]
    \/ \E n \in 0..4, m \in 0..4 : t = [k |-> "put", n |-> n, m |-> m, v |-> Put(n, m)]
    \/ \E d \in Seqs(1..3, 3) : t = [k |-> "curve", d |-> d, v |-> Curve(d)]
    \/ \E d \in Opt(Seqs({-5, -2, 0, 3, 4, 6}, Deep)) : t = [k |-> "dividend", d |-> d, v |-> Dividend(d, 0)]
    \/ \E s \in Opt({1}), d \in {<<2, 5>>, <<5, 2>>, <<-1, 5>>, <<0, 4>>, <<4>>, <<1, 3, 8>>, <<1, 8, 3>>}, x \in {<<1, 2>>, <<2, 1>>, <<1>>, <<1, 2, 4>>},
          r \in 1..3, c \in 1..3, ten \in {<<1, 3>>, <<3, 1>>, <<1>>, <<1, 2, 6>>, <<1, 6, 2>>} :
         t = [k |-> "surface", spot |-> s, d |-> d, x |-> x, r |-> r, c |-> c, ten |-> ten, v |-> Surface(s, d, x, r, c, ten, 0)]
    \/ \E f \in Opt({0, 1, 2}), u \in Opt({0, 1, 2}), dates \in BOOLEAN : t = [k |-> "bump", f |-> f, u |-> u, dates |-> dates, v |-> Bump(f, u)]
    \/ \E r \in BOOLEAN, i \in BOOLEAN, conv \in BOOLEAN, f \in {"quarterly", "semiannually"} : t = [k |-> "bond", rate |-> r, index |-> i, conv |-> conv, f |-> f, v |-> Bond(r, i)]
    \/ \E d \in Seqs(Opt({7, 8}), 3), m \in {7} : t = [k |-> "ktbf", d |-> d, m |-> m, v |-> Futures(m, d)]
    \/ \E n \in 0..3 : t = [k |-> "joint", n |-> n, v |-> Joint(n)]
    \/ \E f \in -2..2, p \in -2..2, fwd \in BOOLEAN : t = [k |-> "gaps", f |-> f, p |-> p, fwd |-> fwd, v |-> Schedule(f, p)]
    \* what is made of any parts at all shows them again
    \/ \E w \in {"index", "quanto", "coupon", "result", "names", "grid"}, n \in 0..3, some \in BOOLEAN : t = [k |-> "keeps", what |-> w, n |-> n, some |-> some, v |-> "ok"]
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
(* what is accepted stays accepted when it loses a pillar; nothing is built from nothing *)
Laws ==
    /\ t.k = "line" /\ t.v = "ok" /\ t.n > 1 => Line(Tail(t.d), t.n - 1) = "ok"
    /\ t.k = "sheet" => (t.v = "ok" <=> Sheet(t.x, t.t, t.c, t.r) = "ok")
    /\ t.k \in {"line", "rows", "curve"} => (t.d = <<>> => t.v = "no")
    /\ t.k = "dividend" /\ t.v = "ok" => Asc(t.d[1])
Cover == PrintT("@@" \o ToJson(t))
=============================================================================
