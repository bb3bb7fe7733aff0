---------------------------- MODULE TraceLogger ----------------------------
(* Real logging sessions (one process each): what every thread logged, then the lines found in the file(s)
   after shutdown.  The writer's internal steps are not visible: a session is a behaviour of Logger iff, per
   thread, the lines are exactly the accepted messages in order (Logger!Complete), which is decided here
   message by message.  A session that goes back to a file it had before, or starts on one that is not empty,
   leaves its lines in several passes: then every file has its own order, and nothing of it may be lost. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES level, pend, phase, l,
          mixed,   \* files are visited more than once
          last     \* the number last found in this file, per thread
vars == <<level, pend, phase, l, mixed, last>>
T == 0..15
E == Trace[l]
Op(n) == l <= Len(Trace) /\ Trace[l].op = n /\ l' = l + 1
Takes(lv) == lv <= level
TNext ==
  \/ Op("reset") /\ (\A t \in T : pend[t] = <<>>) /\ level' = 0 /\ pend' = [t \in T |-> <<>>] /\ phase' = "run"
     /\ mixed' = E.mixed /\ last' = [t \in T |-> 0]
  \/ Op("level") /\ phase = "run" /\ level' = E.v /\ UNCHANGED <<pend, phase, mixed, last>>
  \/ Op("log") /\ phase = "run" /\ UNCHANGED <<level, phase, mixed, last>>
     /\ pend' = IF E.always \/ Takes(E.lv) THEN [pend EXCEPT ![E.t] = Append(@, <<E.n, E.name, E.topic>>)] ELSE pend
  \/ Op("closed") /\ phase = "run" /\ phase' = "read" /\ UNCHANGED <<level, pend, mixed, last>>
  \* the next file; whatever was in it before is still there, in front
  \/ Op("file") /\ phase = "read" /\ E.prior /\ last' = [t \in T |-> 0] /\ UNCHANGED <<level, pend, phase, mixed>>
  \/ Op("line") /\ phase = "read" /\ pend[E.t] # <<>> /\ E.whole /\ UNCHANGED <<level, phase, mixed>>
     /\ LET m == <<E.n, E.name, E.topic>> IN
        IF mixed
        THEN /\ E.n > last[E.t] /\ last' = [last EXCEPT ![E.t] = E.n]
             /\ \E i \in 1..Len(pend[E.t]) : pend[E.t][i] = m
             /\ pend' = [pend EXCEPT ![E.t] = SelectSeq(@, LAMBDA x : x # m)]
        ELSE Head(pend[E.t]) = m /\ pend' = [pend EXCEPT ![E.t] = Tail(@)] /\ UNCHANGED last
  \/ Op("eof") /\ phase = "read" /\ (\A t \in T : pend[t] = <<>>) /\ UNCHANGED <<level, pend, phase, mixed, last>>
TInit == level = 0 /\ pend = [t \in T |-> <<>>] /\ phase = "run" /\ l = 1 /\ mixed = FALSE /\ last = [t \in T |-> 0]
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Trace)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
