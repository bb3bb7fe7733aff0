----------------------------- MODULE MCSwapKind -----------------------------
(* Which exchanges, legs and currencies make which kind of swap: every combination. *)
EXTENDS CashFlow, Json, TLC
VARIABLE c
Init == c = <<>>
Names == <<"i1", "i2", "l1", "l2", "index", "rate", "same", "empty", "soon">>
Next == Len(c) < Len(Names) /\ \E b \in BOOLEAN : c' = Append(c, b)
Spec == Init /\ [][Next]_c
K(x) == SwapKind(x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9])
Full == Len(c) = Len(Names)
(* a swap has both legs or none, and exchanges at the end when it has any *)
Laws == Full => LET k == K(c) IN
    /\ k \in {"IRS", "CRS"} => c[5] /\ c[6]
    /\ k \in {"FxSwap", "FxSpot", "FxForward"} => ~c[5] /\ ~c[6] /\ c[8] /\ ~c[7]
    /\ k # "error" => (c[1] = c[2]) /\ (c[3] = c[4]) /\ (c[1] => c[3])
    /\ k # "error" => (c[7] <=> ~c[3])
Cover == Len(c') = Len(Names) => PrintT("@@" \o ToJson([swapkind |-> K(c'), i1 |-> c'[1], i2 |-> c'[2], l1 |-> c'[3], l2 |-> c'[4], index |-> c'[5],
                                  rate |-> c'[6], same |-> c'[7], empty |-> c'[8], soon |-> c'[9]]))
=============================================================================
