----------------------------- MODULE SpinQueue -----------------------------
(* One producer and up to sixteen workers share one data slot (trading-engine/src/spinqueue.rs).
   Every public call is one atomic access to the status word, so a step here is one call; writing and
   reading the slot itself takes two steps each, so that a torn read is expressible. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES made,     \* has a queue been made?
          reg,      \* the registered worker ids
          status,   \* registered workers that still have to finish with the update
          pub,      \* number of published updates
          prod,     \* "idle", "granted" (write access), "half" (first half written), "written"
          slot,     \* the two halves of the data
          reading,  \* worker -> "no", "granted", "half" (first half read), "read"
          got,      \* worker -> the first half it read (meaningful while reading)
          seen      \* worker -> updates it has finished with
qvars == <<made, reg, status, pub, prod, slot, reading, got, seen>>

Ids == 0..15
MinId == 0
IdOk(i) == i \in Ids

QInit == /\ made = FALSE /\ reg = {} /\ status = {} /\ pub = 0 /\ prod = "idle" /\ slot = <<0, 0>>
         /\ reading = [w \in Ids |-> "no"] /\ got = [w \in Ids |-> 0] /\ seen = [w \in Ids |-> 0]

Distinct(ids) == \A i, j \in 1..Len(ids) : i # j => ids[i] # ids[j]
(* making a queue from a list of ids: refused if an id is out of range or occurs twice *)
NewOk(ids) == (\A i \in 1..Len(ids) : IdOk(ids[i])) /\ Distinct(ids)
New(ids) == /\ ~made /\ NewOk(ids)
            /\ made' = TRUE /\ reg' = {ids[i] : i \in 1..Len(ids)}
            /\ UNCHANGED <<status, pub, prod, slot, reading, got, seen>>
NewRefused(ids) == ~made /\ ~NewOk(ids) /\ UNCHANGED qvars

CanWrite == status = {}
CanRead(w) == w \in status

GetMut == /\ made /\ prod = "idle" /\ CanWrite /\ prod' = "granted"
          /\ UNCHANGED <<made, reg, status, pub, slot, reading, got, seen>>
GetMutRefused == made /\ prod = "idle" /\ ~CanWrite /\ UNCHANGED qvars
Write1 == /\ prod = "granted" /\ prod' = "half" /\ slot' = [slot EXCEPT ![1] = pub + 1]
          /\ UNCHANGED <<made, reg, status, pub, reading, got, seen>>
Write2 == /\ prod = "half" /\ prod' = "written" /\ slot' = [slot EXCEPT ![2] = pub + 1]
          /\ UNCHANGED <<made, reg, status, pub, reading, got, seen>>
Notify == /\ prod = "written" /\ prod' = "idle" /\ status' = reg /\ pub' = pub + 1
          /\ UNCHANGED <<made, reg, slot, reading, got, seen>>
Get(w) == /\ made /\ reading[w] = "no" /\ CanRead(w) /\ reading' = [reading EXCEPT ![w] = "granted"]
          /\ UNCHANGED <<made, reg, status, pub, prod, slot, got, seen>>
GetRefused(w) == made /\ reading[w] = "no" /\ ~CanRead(w) /\ UNCHANGED qvars
Read1(w) == /\ reading[w] = "granted" /\ reading' = [reading EXCEPT ![w] = "half"] /\ got' = [got EXCEPT ![w] = slot[1]]
            /\ UNCHANGED <<made, reg, status, pub, prod, slot, seen>>
Read2(w) == /\ reading[w] = "half" /\ reading' = [reading EXCEPT ![w] = "read"]
            /\ UNCHANGED <<made, reg, status, pub, prod, slot, got, seen>>
Done(w) == /\ reading[w] = "read" /\ reading' = [reading EXCEPT ![w] = "no"] /\ status' = status \ {w}
           /\ seen' = [seen EXCEPT ![w] = @ + 1] /\ UNCHANGED <<made, reg, pub, prod, slot, got>>
(* reporting completion without holding an update (an unregistered worker, or a second report) is harmless *)
DoneAgain(w) == made /\ reading[w] = "no" /\ w \notin status /\ UNCHANGED qvars
Probe == made /\ UNCHANGED qvars

(* ---- what the queue guarantees ---- *)
Exclusive == prod # "idle" => \A w \in Ids : reading[w] = "no"
Untorn == \A w \in Ids : reading[w] # "no" => slot = <<pub, pub>> /\ (reading[w] # "granted" => got[w] = pub)
OnlyRegistered == \A w \in Ids \ reg : reading[w] = "no" /\ seen[w] = 0
ExactlyOnce == \A w \in reg : seen[w] = IF w \in status THEN pub - 1 ELSE pub
=============================================================================
