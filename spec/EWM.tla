-------------------------------- MODULE EWM --------------------------------
(* Exponentially weighted mean and sum over timestamped observations.  Time is counted in ticks; one tick
   multiplies the past by 2^-r (r = NONE: the past is forgotten as soon as any time passes), so that every
   value is a dyadic number; all values below are scaled by One.  obs is the whole history; the streaming
   state (avg, sum, at) is what an implementation keeps. *)
EXTENDS Integers, Sequences
CONSTANT One
NONE == 99
VARIABLES r, a0, obs, at, avg, sum
evars == <<r, a0, obs, at, avg, sum>>
Pow2(n) == 2^n
\* what remains of v after d ticks
Decay(rr, v, d) == IF d = 0 THEN v ELSE IF rr = NONE \/ rr * d > 28 THEN 0 ELSE v \div Pow2(rr * d)
EInit(rr, v) == r = rr /\ a0 = v /\ obs = <<>> /\ at = 0 /\ avg = v * One /\ sum = 0
Reset(rr, v) == r' = rr /\ a0' = v /\ obs' = <<>> /\ at' = 0 /\ avg' = v * One /\ sum' = 0
Observe(x, d) ==
    /\ avg' = Decay(r, avg, d) + (x * One - Decay(r, x * One, d))
    /\ sum' = Decay(r, sum, d) + x * One
    /\ at' = at + d
    /\ obs' = Append(obs, [x |-> x, t |-> at + d])
    /\ UNCHANGED <<r, a0>>
\* ---- the closed forms over the whole history
RECURSIVE ClosedSum(_), ClosedAvg(_)
Prev(i) == IF i = 1 THEN 0 ELSE obs[i - 1].t
ClosedSum(i) == IF i = 0 THEN 0 ELSE Decay(r, obs[i].x * One, at - obs[i].t) + ClosedSum(i - 1)
ClosedAvg(i) ==
    IF i = 0 THEN Decay(r, a0 * One, at)
    ELSE LET w == obs[i].x * One
         IN (Decay(r, w, at - obs[i].t) - Decay(r, w, at - Prev(i))) + ClosedAvg(i - 1)
SumIsClosedForm == sum = ClosedSum(Len(obs))
AvgIsClosedForm == avg = ClosedAvg(Len(obs))
\* a mean never leaves the range of what it has seen
Seen == {a0} \cup {obs[i].x : i \in 1..Len(obs)}
AvgInRange == /\ \E v \in Seen : v * One <= avg
              /\ \E v \in Seen : v * One >= avg
\* observations of the same instant add up in the sum and do not move the mean
NoTimeNoMove == [][at' = at /\ Len(obs') = Len(obs) + 1 => avg' = avg]_evars
=============================================================================
