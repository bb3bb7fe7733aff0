------------------------------- MODULE Logger -------------------------------
(* The asynchronous logger (trading-engine/src/logger.rs): threads put accepted messages into an unbounded
   channel; one writer takes them out, holds them, and writes what it holds to the attached file when it
   decides to flush (size or age), when a flushing message arrives, and when it is told to close.
   A message is <<thread, number>>. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Threads
VARIABLES level,     \* threshold: 0 nothing .. 5 everything
          accepted,  \* thread -> the messages it logged at or above the threshold, in order
          chan,      \* channel contents: [k |-> "msg"/"flush"/"attach"/"close", m |-> message]
          held,      \* messages taken out of the channel but not yet written
          attached,  \* has the writer opened a file?
          file,      \* the file's contents
          closed     \* "no", "asked", "done"
lvars == <<level, accepted, chan, held, attached, file, closed>>

LInit == /\ level = 0 /\ accepted = [t \in Threads |-> <<>>] /\ chan = <<>> /\ held = <<>>
         /\ attached = FALSE /\ file = <<>> /\ closed = "no"

Takes(lv) == lv <= level
SetLevel(v) == level' = v /\ UNCHANGED <<accepted, chan, held, attached, file, closed>>
Log(t, m, lv, flush) ==
    /\ closed = "no"
    /\ IF Takes(lv)
       THEN /\ accepted' = [accepted EXCEPT ![t] = Append(@, m)]
            /\ chan' = Append(chan, [k |-> IF flush THEN "flush" ELSE "msg", m |-> m])
       ELSE UNCHANGED <<accepted, chan>>
    /\ UNCHANGED <<level, held, attached, file, closed>>
Attach == /\ closed = "no" /\ chan' = Append(chan, [k |-> "attach", m |-> <<>>])
          /\ UNCHANGED <<level, accepted, held, attached, file, closed>>
Close == /\ closed = "no" /\ closed' = "asked" /\ chan' = Append(chan, [k |-> "close", m |-> <<>>])
         /\ UNCHANGED <<level, accepted, held, attached, file>>

(* the writer takes one item; `now` is its free choice to flush on an ordinary message *)
Write(now) ==
    /\ chan # <<>> /\ closed # "done"
    /\ LET c == Head(chan)
           hold == IF c.k \in {"msg", "flush"} THEN Append(held, c.m) ELSE held
           out == attached /\ (c.k = "flush" \/ (c.k = "msg" /\ now) \/ c.k = "close")
       IN /\ chan' = Tail(chan)
          /\ attached' = (attached \/ c.k = "attach")
          /\ file' = IF out THEN file \o hold ELSE file
          /\ held' = IF out THEN <<>> ELSE hold
          /\ closed' = IF c.k = "close" THEN "done" ELSE closed
    /\ UNCHANGED <<level, accepted>>

(* ---- what users rely on ---- *)
Of(t, ms) == SelectSeq(ms, LAMBDA m : m[1] = t)
Complete == closed = "done" /\ attached => \A t \in Threads : Of(t, file) = accepted[t]
NoForeign == \A t \in Threads : LET f == Of(t, file) IN
                Len(f) <= Len(accepted[t]) /\ \A i \in 1..Len(f) : f[i] = accepted[t][i]
=============================================================================
