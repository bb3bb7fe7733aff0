----------------------------- MODULE MCSpinMem -----------------------------
(* With its orderings the slot is free of races; without any single one of them it is not. *)
EXTENDS SpinMem, TLC
CONSTANT MaxPub
Kinds == <<"notify", "done", "get", "getmut">>
Init == MInit /\ weak \in ({{}} \cup {{Kinds[k]} : k \in 1..4})
        /\ \A k \in 1..4 : TLCSet(k, FALSE)
Next == MNext
Spec == Init /\ [][Next]_mvars
Bounded == pub <= MaxPub
Noted == race' /\ weak # {} => \A k \in 1..4 : Kinds[k] \in weak => TLCSet(k, TRUE)
Ordered == weak = {} => ~race
AllNeeded == (\A k \in 1..4 : TLCGet(k)) \/ (PrintT(<<"an ordering is not needed in this model", [k \in 1..4 |-> TLCGet(k)]>>) /\ FALSE)
=============================================================================
