--------------------------- MODULE TraceSpinMem ---------------------------
(* Runs of the real queue under a release/acquire memory: each thread kept its own log (no shared clock, which
   would order what the slot has to order).  A run is accepted when its logs merge into a behaviour of SpinQueue. *)
EXTENDS SpinQueue, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pos
vars == <<qvars, l, pos>>
R == Log[l]
Fresh == /\ made' = FALSE /\ reg' = {} /\ status' = {} /\ pub' = 0 /\ prod' = "idle" /\ slot' = <<0, 0>>
         /\ reading' = [w \in Ids |-> "no"] /\ got' = [w \in Ids |-> 0] /\ seen' = [w \in Ids |-> 0]
(* one more event of thread t (1 is the producer) *)
At(t) == made /\ pos[t] < Len(R.logs[t]) /\ pos' = [pos EXCEPT ![t] = @ + 1] /\ UNCHANGED l
Ev(t) == R.logs[t][pos[t] + 1]
Ended == made /\ \A t \in 1..Len(R.logs) : pos[t] = Len(R.logs[t])
Producer(e) == \/ e.op = "getmut" /\ GetMut
               \/ e.op = "w1" /\ Write1
               \/ e.op = "w2" /\ Write2
               \/ e.op = "notify" /\ Notify
Worker(w, e) == \/ e.op = "get" /\ Get(w)
                \/ e.op = "r1" /\ e.v = slot[1] /\ Read1(w)
                \/ e.op = "r2" /\ e.v = slot[2] /\ Read2(w)
                \/ e.op = "done" /\ Done(w)
TNext ==
  \/ l <= Len(Log) /\ ~made /\ New(R.ids) /\ pos' = [t \in 1..Len(R.logs) |-> 0] /\ UNCHANGED l
  \/ l <= Len(Log) /\ At(1) /\ Producer(Ev(1))
  \/ l <= Len(Log) /\ \E t \in 2..Len(R.logs) : At(t) /\ Worker(R.ids[t - 1], Ev(t))
  \/ l <= Len(Log) /\ Ended /\ status = {} /\ pub = R.pub /\ (\A w \in reg : seen[w] = pub)
     /\ Fresh /\ l' = l + 1 /\ pos' = <<>>
TInit == QInit /\ l = 1 /\ pos = <<>>
TSpec == TInit /\ [][TNext]_vars
Sum(q) == LET F[k \in 0..Len(q)] == IF k = 0 THEN 0 ELSE F[k - 1] + Len(q[k]) IN F[Len(q)]
Steps == LET F[k \in 0..Len(Log)] == IF k = 0 THEN 0 ELSE F[k - 1] + 2 + Sum(Log[k].logs) IN F
Accepted ==
    LET d == TLCGet("stats").diameter - 1
        far == CHOOSE k \in 0..Len(Log) : Steps[k] <= d /\ (k = Len(Log) \/ Steps[k + 1] > d) IN
    \/ d = Steps[Len(Log)]
    \/ PrintT(<<"REJECTED-AT", far + 1>>) /\ FALSE
=============================================================================
