------------------------------ MODULE MCCivil ------------------------------
(* The formulas of Civil against a walk day by day. *)
EXTENDS Civil
CONSTANT Last
VARIABLES n, c
Init == n = 0 /\ c = <<1970, 1, 1>>
Next == n < Last /\ n' = n + 1 /\ c' = Succ(c)
Spec == Init /\ [][Next]_<<n, c>>
Right == DayNo(c[1], c[2], c[3]) = n /\ Civ(n) = c
=============================================================================
