----------------------------- MODULE TraceInstId -----------------------------
(* Ids made by concurrent threads; each event lists what the id compared equal to, hashed equal to,
   and what it says its symbol and venue are. *)
EXTENDS InstId, Json, IOUtils, TLC, SequencesExt
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<ivars, l>>
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
Seen(e) == LET n == Len(ids') IN
    /\ ToSet(e.eq) = EqualTo(ids', n) \* compares equal to exactly these
    /\ ToSet(e.same) = EqualTo(ids', n) \* and shares its data with exactly these
    /\ EqualTo(ids', n) \subseteq ToSet(e.heq)
    /\ <<e.kind, e.text, e.venue>> = ids'[n]
    /\ e.padded
TNext == \/ Op("reset") /\ ids' = <<>> /\ cache' = cache
         \/ Op("mk") /\ Make(Key(E.k, E.x, E.v)) /\ Seen(E)
         \/ Op("again") /\ Again(E.n) /\ Seen(E)
         \/ Op("code") /\ E.ok = CodeOk(E.kind, E.len, E.ascii, E.blank) /\ UNCHANGED ivars
TInit == IInit /\ l = 1
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
