------------------------------ MODULE SpinMem ------------------------------
(* The shared slot of SpinQueue under a release/acquire memory (trading-engine/src/spinqueue.rs): the status
   word is the only thing that orders the accesses to the data.  Every thread has a vector clock; a releasing
   access of the status word leaves its clock there, an acquiring one takes it along.  Two accesses to the
   data of which neither is ordered before the other, one of them a write, are a race: the reader may see
   anything.  (Reading an old value of the status word is not modelled: a worker that sees its bit late, and a
   producer that sees the last bit vanish late, only wait longer; coherence forbids the harmful direction.) *)
EXTENDS Integers, FiniteSets
CONSTANT Workers     \* 1..n; the producer is 0
VARIABLES weak,      \* which accesses of the status word lack their ordering (none in the real queue)
          status, prod, reading, pub, seen,
          clock,     \* thread -> thread -> what it knows
          left,      \* the clock left in the status word
          wrote,     \* when the producer last wrote (its own count)
          readAt,    \* worker -> when it last read
          race
mvars == <<weak, status, prod, reading, pub, seen, clock, left, wrote, readAt, race>>
T == Workers \cup {0}
Zero == [t \in T |-> 0]
Join(a, b) == [t \in T |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]
Tick(t) == [clock EXCEPT ![t][t] = @ + 1]
MInit == /\ status = {} /\ prod = "idle" /\ reading = [w \in Workers |-> "no"] /\ pub = 0
         /\ seen = [w \in Workers |-> 0] /\ clock = [t \in T |-> Zero] /\ left = Zero
         /\ wrote = 0 /\ readAt = Zero /\ race = FALSE
Grant == /\ prod = "idle" /\ status = {} /\ prod' = "granted"
         /\ clock' = IF "getmut" \in weak THEN clock ELSE [clock EXCEPT ![0] = Join(@, left)]
         /\ UNCHANGED <<weak, status, reading, pub, seen, left, wrote, readAt, race>>
Write == /\ prod = "granted" /\ prod' = "written" /\ clock' = Tick(0) /\ wrote' = clock'[0][0]
         /\ race' = (race \/ \E w \in Workers : readAt[w] > clock[0][w])
         /\ UNCHANGED <<weak, status, reading, pub, seen, left, readAt>>
Notify == /\ prod = "written" /\ prod' = "idle" /\ status' = Workers /\ pub' = pub + 1
          /\ left' = IF "notify" \in weak THEN Zero ELSE clock[0]
          /\ UNCHANGED <<weak, reading, seen, clock, wrote, readAt, race>>
Get(w) == /\ reading[w] = "no" /\ w \in status /\ reading' = [reading EXCEPT ![w] = "granted"]
          /\ clock' = IF "get" \in weak THEN clock ELSE [clock EXCEPT ![w] = Join(@, left)]
          /\ UNCHANGED <<weak, status, prod, pub, seen, left, wrote, readAt, race>>
Read(w) == /\ reading[w] = "granted" /\ reading' = [reading EXCEPT ![w] = "read"]
           /\ clock' = Tick(w) /\ readAt' = [readAt EXCEPT ![w] = clock'[w][w]]
           /\ race' = (race \/ wrote > clock[w][0])
           /\ UNCHANGED <<weak, status, prod, pub, seen, left, wrote>>
(* an atomic read-modify-write: what earlier ones left stays there *)
Done(w) == /\ reading[w] = "read" /\ reading' = [reading EXCEPT ![w] = "no"] /\ status' = status \ {w}
           /\ seen' = [seen EXCEPT ![w] = @ + 1]
           /\ left' = IF "done" \in weak THEN left ELSE Join(left, clock[w])
           /\ UNCHANGED <<weak, prod, pub, clock, wrote, readAt, race>>
MNext == Grant \/ Write \/ Notify \/ \E w \in Workers : Get(w) \/ Read(w) \/ Done(w)

NoRace == ~race
Fresh == \A w \in Workers : seen[w] = IF w \in status THEN pub - 1 ELSE pub
=============================================================================
