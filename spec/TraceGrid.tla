------------------------------ MODULE TraceGrid ------------------------------
(* Random grids and surfaces asked at many places, and vectors amounts are put on: every answer recorded from the real
   code must be the specification's, up to the precision of the code's numbers. *)
EXTENDS Grid, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES p, vec, l
vars == <<p, vec, l>>
E == Log[l]
Op(n) == l <= Len(Log) /\ Log[l].op = n /\ l' = l + 1
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y) == Abs(x - y) <= 40 + (Abs(y) \div 20000)
Nears(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Near(s[i], t[i])
Row(i) == [kind |-> "linear", d |-> p.x, v |-> p.rows[i], ext |-> p.xe, l |-> 0, r |-> 0]
TNext ==
    \/ Op("grid") /\ p' = E.p /\ vec' = <<>>
    \/ /\ Op("ask") /\ UNCHANGED <<p, vec>>
       /\ Len(E.idx) = Len(E.q) /\ Len(E.one) = Len(E.q) /\ E.list = E.idx   \* the same from a plain list
       /\ \A i \in 1..Len(E.q) :
            LET a == Answer(p, E.q[i]) IN
            E.idx[i] = Index(p.d, E.q[i]) /\ E.one[i].ok = a.ok /\ (a.ok => Nears(E.one[i].v, <<a.v>>))
       /\ LET b == Batch(p, E.q) IN E.all.ok = b.ok /\ (b.ok => Nears(E.all.v, b.v))
    \/ Op("sheet") /\ p' = [t |-> E.t, x |-> E.x, rows |-> E.rows, te |-> E.te, xe |-> E.xe] /\ vec' = <<>>
    \/ /\ Op("read") /\ UNCHANGED <<p, vec>>
       /\ LET a == Surface(p.t, [i \in 1..Len(p.t) |-> Row(i)], p.te, E.q[1], E.q[2])
          IN E.a.ok = a.ok /\ (a.ok => Nears(E.a.v, <<a.v>>))
    \/ Op("vector") /\ p' = [d |-> E.d] /\ vec' = [i \in 1..Len(E.d) |-> 0]
    \/ Op("put") /\ UNCHANGED p /\ vec' = Put(p.d, vec, E.a, E.q) /\ Nears(E.vec, vec')
TInit == p = [none |-> 0] /\ vec = <<>> /\ l = 1
TSpec == TInit /\ [][TNext]_vars
Accepted ==
    LET d == TLCGet("stats").diameter - 1 IN
    \/ d = Len(Log)
    \/ PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
