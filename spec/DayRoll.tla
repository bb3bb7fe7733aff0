------------------------------- MODULE DayRoll -------------------------------
(* Exchange times of day become timestamps (trading-engine/src/utils/numeric_converter.rs,
   types/timestamp.rs).  An instant is <<day, second of the day, microsecond>>. *)
EXTENDS Integers, Sequences
VARIABLES base,  \* the day the feed is on
          prev,  \* the previous timestamp, or <<>> if there is none yet
          ts     \* the last timestamp made
dvars == <<base, prev, ts>>
Norm(d, s, u) == <<d + s \div 86400, s % 86400, u>>
Fifteen == 54000
(* a >= b, for instants less than a lifetime apart *)
Geq(a, b) == \/ a[1] > b[1] \/ (a[1] = b[1] /\ (a[2] > b[2] \/ (a[2] = b[2] /\ a[3] >= b[3])))
Behind(p, c) == p # <<>> /\ Geq(p, Norm(c[1], c[2] + Fifteen, c[3]))
RECURSIVE Rolls(_, _)
Rolls(p, c) == IF Behind(p, c) THEN 1 + Rolls(p, <<c[1] + 1, c[2], c[3]>>) ELSE 0

DInit(b) == base = b /\ prev = <<>> /\ ts = <<b, 0, 0>>
(* a message with time of day s seconds u microseconds, converter shifting by off seconds *)
Feed(s, u, off) ==
    LET c == Norm(base, s + off, u)
        k == Rolls(prev, c)
        r == <<c[1] + k, c[2], c[3]>>
    IN base' = base + k /\ prev' = r /\ ts' = r
SetTimestamp(i) == base' = i[1] /\ UNCHANGED <<prev, ts>>
Cache(i) == prev' = i /\ UNCHANGED <<base, ts>>
Increment == base' = base + 1 /\ UNCHANGED <<prev, ts>>
Restart(i) == base' = i[1] /\ prev' = <<>> /\ ts' = <<i[1], 0, 0>>

(* a timestamp is never fifteen hours or more behind the one before it, and its time of day is the message's *)
NeverFarBehind == [][ prev # <<>> /\ prev' = ts' /\ ts' # ts => ~Behind(prev, ts') ]_dvars
=============================================================================
