-------------------------------- MODULE Chol --------------------------------
(* The lower triangular factor of a symmetric integer matrix, exactly.  With M(i, j) the determinant of the rows 1..j-1, i and
   the columns 1..j, and D(j) = M(j, j) (D(0) = 1), the factor's entry is M(i, j) / sqrt(D(j - 1) * D(j)); it exists when
   every D(j) is positive.  When the first D(j) that is not positive is zero, the matrix is refused if everything before it comes
   out in whole numbers (then nothing is rounded); otherwise the answer depends on rounding and is left open. *)
EXTENDS Integers, Sequences
RECURSIVE Det(_), Laplace(_, _)
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Laplace(a, k) == IF k > Len(a) THEN 0
                 ELSE (IF k % 2 = 1 THEN 1 ELSE -1) * (IF a[1][k] = 0 THEN 0 ELSE a[1][k] * Det([r \in 1..(Len(a) - 1) |-> Without(a[r + 1], k)])) + Laplace(a, k + 1)
Det(a) == IF Len(a) = 0 THEN 1 ELSE IF Len(a) = 1 THEN a[1][1] ELSE Laplace(a, 1)
M(a, i, j) == Det([r \in 1..j |-> SubSeq(a[IF r < j THEN r ELSE i], 1, j)])
D(a, j) == IF j = 0 THEN 1 ELSE M(a, j, j)

(* entry i, j of the factor is a whole number *)
WholeAt(a, i, j) == LET p == D(a, j - 1) * D(a, j) IN \E q \in 0..12 : q * q * p = M(a, i, j) * M(a, i, j)
IntBefore(a, k) == \A j \in 1..(k - 1) : \A i \in j..k : WholeAt(a, i, j)
Verdict(a) == LET n == Len(a)
                  d == [j \in 1..n |-> D(a, j)]
                  bad == {j \in 1..n : d[j] <= 0}
              IN IF bad = {} THEN "yes"
                 ELSE LET k == CHOOSE j \in bad : \A z \in bad : j <= z IN IF d[k] < 0 \/ IntBefore(a, k) THEN "no" ELSE "open"
(* row by row, <<numerator, product of the two determinants>> *)
Factor(a) == LET d == [j \in 0..Len(a) |-> D(a, j)] IN
             [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> IF j > i THEN <<0, 1>> ELSE <<M(a, i, j), d[j - 1] * d[j]>>]]
RECURSIVE Dot(_, _, _)
Dot(x, y, k) == IF k = 0 THEN 0 ELSE x[k] * y[k] + Dot(x, y, k - 1)
Square(l) == [i \in 1..Len(l) |-> [j \in 1..Len(l) |-> Dot(l[i], l[j], Len(l))]]
Symmetric(a) == \A i \in 1..Len(a), j \in 1..Len(a) : a[i][j] = a[j][i]
(* laws: a product of a triangular matrix with positive diagonal and its transpose has that matrix as its factor *)
FactorIs(a, l) == LET f == Factor(a) IN \A i \in 1..Len(a), j \in 1..Len(a) :
    /\ f[i][j][1] * f[i][j][1] = l[i][j] * l[i][j] * f[i][j][2]
    /\ f[i][j][1] * l[i][j] >= 0
=============================================================================
