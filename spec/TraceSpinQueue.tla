--------------------------- MODULE TraceSpinQueue ---------------------------
(* Recorded multi-threaded use of the real queue must be a behaviour of SpinQueue.  Event order is exact:
   an access ticket is drawn after access was granted, a release ticket before access is given up. *)
EXTENDS SpinQueue, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<qvars, l>>
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
ToIds(s) == s
TReset == Op("reset") /\ made' = FALSE /\ reg' = {} /\ status' = {} /\ pub' = 0 /\ prod' = "idle" /\ slot' = <<0, 0>>
          /\ reading' = [w \in Ids |-> "no"] /\ got' = [w \in Ids |-> 0] /\ seen' = [w \in Ids |-> 0]
TNext ==
  \/ TReset
  \/ Op("new") /\ E.ok /\ New(E.ids)
  \/ Op("new") /\ ~E.ok /\ NewRefused(E.ids)
  \/ Op("getmut") /\ GetMut
  \/ Op("w1") /\ Write1
  \/ Op("w2") /\ Write2
  \/ Op("notify") /\ Notify
  \/ Op("get") /\ Get(E.w)
  \/ Op("r1") /\ E.v = slot[1] /\ Read1(E.w)
  \/ Op("r2") /\ E.v = slot[2] /\ Read2(E.w)
  \/ Op("done") /\ Done(E.w)
  \/ Op("end") /\ status = {} /\ pub = E.pub /\ (\A w \in reg : seen[w] = pub) /\ UNCHANGED qvars
TInit == QInit /\ l = 1
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
