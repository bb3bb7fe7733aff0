------------------------------- MODULE MCChol -------------------------------
(* Matrices: squares of all small triangular ones, and all small symmetric ones (most of which have no factor). *)
EXTENDS Chol, Json, TLC
CONSTANTS Diag, Low, Sym, BigDiag, BigLow, Four, Emit
VARIABLES a, l, done
vars == <<a, l, done>>
Tri1 == {<<<<p>>>> : p \in Diag}
Tri2 == {<<<<p, 0>>, <<x, q>>>> : p \in Diag, q \in Diag, x \in Low}
Tri3 == {<<<<p, 0, 0>>, <<x, q, 0>>, <<y, z, r>>>> : p \in Diag, q \in Diag, r \in Diag, x \in Low, y \in Low, z \in Low}
Tri4 == {<<<<p, 0, 0, 0>>, <<x, q, 0, 0>>, <<y, z, r, 0>>, <<u, v, w, s>>>> : p \in BigDiag, q \in {1}, r \in BigDiag, s \in BigDiag, x \in BigLow, y \in BigLow, z \in BigLow, u \in BigLow, v \in BigLow, w \in BigLow}
(* triangular ones whose last row is not needed: their squares have no factor *)
Flat2 == {<<<<p, 0>>, <<x, 0>>>> : p \in Diag, x \in Low}
Flat3 == {<<<<p, 0, 0>>, <<x, q, 0>>, <<y, z, 0>>>> : p \in Diag, q \in Diag, x \in Low, y \in Low, z \in Low}
Sym2 == {<<<<p, x>>, <<x, q>>>> : p \in Sym, q \in Sym, x \in Sym}
Sym3 == {<<<<p, x, y>>, <<x, q, z>>, <<y, z, r>>>> : p \in Sym, q \in Sym, r \in Sym, x \in Sym, y \in Sym, z \in Sym}
Init == /\ done = FALSE
        /\ \/ l \in Tri1 \cup Tri2 \cup Tri3 \cup (IF Four THEN Tri4 ELSE {}) /\ a = Square(l)
           \/ \E m \in Flat2 \cup Flat3 : a = Square(m) /\ l = <<>>
           \/ a \in Sym2 \cup Sym3 /\ l = <<>>
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, l>>
Spec == Init /\ [][Next]_vars
Laws == ~done => /\ Symmetric(a)
                 /\ l # <<>> => Verdict(a) = "yes" /\ FactorIs(a, l)
                 /\ (Len(a) > 1 /\ D(a, Len(a)) = 0 /\ (\A j \in 1..(Len(a) - 1) : D(a, j) > 0) /\ IntBefore(a, Len(a)) => Verdict(a) = "no")
                 /\ (Verdict(a) = "yes" => \A i \in 1..Len(a) : a[i][i] > 0)
Cover == Emit => PrintT("@@" \o ToJson([a |-> a, v |-> Verdict(a), f |-> IF Verdict(a) = "yes" THEN Factor(a) ELSE <<>>]))
LowQ == {-2, 0, 3}
SymQ == {-1, 0, 1, 2}
LowB == {-3, -1, 0, 2}
SymB == {-2, -1, 0, 1, 3}
BL == {-1, 0, 2}
=============================================================================
