------------------------------ MODULE TraceChol ------------------------------
(* Factors of random larger matrices, and paths drawn with them.  Entries are recorded in thousandths. *)
EXTENDS Chol, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
Abs(x) == IF x < 0 THEN -x ELSE x
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Largest(a) == Max({a[i][i] : i \in 1..Len(a)})
(* thousandths of the square of the recorded factor, against the matrix *)
SquareIs(f, a) == \A i \in 1..Len(a), j \in 1..Len(a) : Abs(Dot(f[i], f[j], Len(a)) - 1000000 * a[i][j]) <= 1000 * 6 * Len(a) * Largest(a)
Triangular(f) == \A i \in 1..Len(f), j \in 1..Len(f) : (i < j => f[i][j] = 0) /\ (i = j => f[i][j] > 0)
(* sample covariance of n draws (in thousandths), about eight standard errors; n >= 40000 *)
Close(c, a) == \A i \in 1..Len(a), j \in 1..Len(a) : Abs(c[i][j] - 1000 * a[i][j]) <= 60 * Largest(a)
TNext ==
    \/ Op("reset")
    \/ /\ Op("factor") /\ E.a = Square(E.tri)
       /\ E.ok /\ Len(E.f) = Len(E.a) /\ Triangular(E.f) /\ SquareIs(E.f, E.a)
    \/ /\ Op("refuse")          \* one diagonal entry lowered until the matrix is not positive definite
       /\ Verdict(E.a) = "no" /\ ~E.ok
    \/ /\ Op("paths") /\ E.a = Square(E.tri)
       /\ E.rows = Len(E.a) /\ E.cols = E.n
       /\ Close(E.cov, E.a) /\ \A i \in 1..Len(E.a) : Abs(E.mean[i]) <= 45 * Largest(E.a)
       /\ \A i \in 1..Len(E.a) : Abs(E.lag[i]) <= 60 * Largest(E.a)
       /\ E.again = FALSE       \* another call draws anew
TInit == l = 1
TSpec == TInit /\ [][TNext]_l
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
