------------------------------ MODULE Counter ------------------------------
(* A counter drawn from by several threads (trading-engine/src/utils/counter.rs).  Numbers are counted from
   the start of the counter; Last is the last number that may be handed out (-1: none may).
   A draw is a call, one atomic step that fixes its number, and a return.  An observer sees calls and returns
   only; the second half of the module decides, without guessing, whether what it saw is such a behaviour. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Threads
VARIABLES last,    \* the last number allowed
          next,    \* the next number (numbers below it have been taken)
          st,      \* thread -> "out", "called", "fixed"
          val,     \* thread -> the number fixed for its draw (meaningful when "fixed")
          log      \* the numbers handed out, in the order they were fixed
cvars == <<last, next, st, val, log>>
CInit(l) == last = l /\ next = 0 /\ st = [t \in Threads |-> "out"] /\ val = [t \in Threads |-> 0] /\ log = <<>>
Call(t) == st[t] = "out" /\ st' = [st EXCEPT ![t] = "called"] /\ UNCHANGED <<last, next, val, log>>
Fix(t) == /\ st[t] = "called" /\ st' = [st EXCEPT ![t] = "fixed"] /\ val' = [val EXCEPT ![t] = next] /\ next' = next + 1
          /\ log' = IF next <= last THEN Append(log, next) ELSE log
          /\ UNCHANGED last
Refused(t) == val[t] > last
Ret(t) == st[t] = "fixed" /\ st' = [st EXCEPT ![t] = "out"] /\ UNCHANGED <<last, next, val, log>>

Consecutive == \A i \in 1..Len(log) : log[i] = i - 1
Bounded == Len(log) <= last + 1

(* ---- the observer ---- *)
VARIABLES mayNext,  \* every number below this one has been returned or is owed to a draw under way
          owed,     \* numbers that some draw under way must still return
          low       \* thread -> smallest number its draw under way may return (-1: no draw under way)
ovars == <<mayNext, owed, low>>
OInit == mayNext = 0 /\ owed = {} /\ low = [t \in Threads |-> -1]
OCall(t) == low[t] = -1 /\ low' = [low EXCEPT ![t] = mayNext] /\ UNCHANGED <<mayNext, owed>>
Pending(l) == {t \in Threads : l[t] # -1}
(* every owed number has its own draw that started early enough *)
Payable(ow, l) == \A n \in ow : Cardinality({m \in ow : m <= n}) <= Cardinality({t \in Pending(l) : l[t] <= n})
Max(a, b) == IF a > b THEN a ELSE b
(* number n returned to t (n <= last), or refused (ok = FALSE): the first number past the end stands for it *)
ORet(t, ok, n, lst) ==
    LET v == IF ok THEN n ELSE Max(mayNext, lst + 1)
        free == IF v >= mayNext THEN mayNext..(v - 1) ELSE {}
        ow == IF ok THEN (owed \cup free) \ {v} ELSE owed \cup {m \in free : m <= lst}
    IN /\ low[t] # -1
       /\ ok => v <= lst /\ v >= low[t] /\ (v >= mayNext \/ v \in owed)
       /\ low' = [low EXCEPT ![t] = -1]
       /\ mayNext' = IF ok THEN Max(mayNext, v + 1) ELSE v
       /\ owed' = ow
       /\ Payable(ow, low')
=============================================================================
