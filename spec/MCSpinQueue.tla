---------------------------- MODULE MCSpinQueue ----------------------------
(* every interleaving of the calls of one producer and the workers W; each transition is one test *)
EXTENDS SpinQueue, Json, TLC, SequencesExt
CONSTANTS Lists, W, MaxPub, Probes, Emit
ListsQuick == {<<0, 5, 15>>, <<15>>, <<5, 0>>, <<>>, <<5, 5>>, <<0, 15, 5, 0>>, <<16>>, <<0, 65535>>}
ListsBig == {<<0, 5, 15, 8>>, <<7, 8>>, <<14, 15, 1>>}
VARIABLE hist
vars == <<qvars, hist>>
Log(r) == hist' = Append(hist, r)
Init == QInit /\ hist = <<>>
Next ==
  \/ \E ids \in Lists : \/ New(ids) /\ Log([op |-> "new", ids |-> ids, ok |-> TRUE])
                        \/ NewRefused(ids) /\ Log([op |-> "new", ids |-> ids, ok |-> FALSE])
  \/ pub < MaxPub /\ GetMut /\ Log([op |-> "getmut", ok |-> TRUE])
  \/ GetMutRefused /\ Log([op |-> "getmut", ok |-> FALSE])
  \/ Write1 /\ Log([op |-> "w1"])
  \/ Write2 /\ Log([op |-> "w2"])
  \/ Notify /\ Log([op |-> "notify"])
  \/ \E w \in W :
       \/ Get(w) /\ Log([op |-> "get", w |-> w, ok |-> TRUE])
       \/ GetRefused(w) /\ Log([op |-> "get", w |-> w, ok |-> FALSE])
       \/ Read1(w) /\ Log([op |-> "r1", w |-> w, v |-> slot[1]])
       \/ Read2(w) /\ Log([op |-> "r2", w |-> w, v |-> slot[2]])
       \/ Done(w) /\ Log([op |-> "done", w |-> w])
       \/ DoneAgain(w) /\ Log([op |-> "done", w |-> w])
       \/ Probes /\ Probe /\ Log([op |-> "ready", w |-> w, v |-> CanRead(w)])
  \/ Probes /\ Probe /\ Log([op |-> "readyp", v |-> CanWrite])
Spec == Init /\ [][Next]_vars
View == qvars
Can == [w \in 1..16 |-> CanRead(w - 1)]
(* the test: the calls with their results, then who may do what afterwards *)
Cover == Emit => PrintT("@@" \o ToJson([h |-> hist', made |-> made', cw |-> CanWrite',
                                        cr |-> [i \in 1..16 |-> (i - 1) \in status']]))
Small == pub <= MaxPub
(* liveness: a published update is eventually finished by all if workers run *)
Fair == \A w \in W : (WF_qvars(Get(w)) /\ WF_qvars(Read1(w)) /\ WF_qvars(Read2(w)) /\ WF_qvars(Done(w)))
FSpec == Spec /\ Fair
=============================================================================
