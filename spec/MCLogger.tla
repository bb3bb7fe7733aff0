------------------------------ MODULE MCLogger ------------------------------
(* All interleavings of two logging threads and the writer; API-level histories become tests, whose
   expected file contents follow from the order of the calls. *)
EXTENDS Logger, Json, TLC
CONSTANTS MaxMsgs, Levels, Sets, Emit
VARIABLES hist, n, exp   \* exp: messages accepted so far in order of the calls
vars == <<lvars, hist, n, exp>>
Init == LInit /\ hist = <<>> /\ n = [t \in Threads |-> 0] /\ exp = <<>>
Total == Len(SelectSeq(hist, LAMBDA e : e.op = "log"))
DoLog(t) == \E lv \in Levels, fl \in BOOLEAN :
    LET m == <<t, n[t] + 1>> IN
    /\ Total < MaxMsgs
    /\ Log(t, m, lv, fl)
    /\ n' = [n EXCEPT ![t] = @ + 1]
    /\ exp' = IF Takes(lv) THEN Append(exp, m) ELSE exp
    /\ hist' = Append(hist, [op |-> "log", t |-> t, n |-> n[t] + 1, lv |-> lv, flush |-> fl])
DoLevel == \E v \in Sets : /\ v # level /\ closed = "no" /\ Len(SelectSeq(hist, LAMBDA e : e.op = "level")) < 2
              /\ SetLevel(v) /\ UNCHANGED <<n, exp>> /\ hist' = Append(hist, [op |-> "level", v |-> v])
DoAttach == /\ Attach /\ UNCHANGED <<n, exp>> /\ \A i \in 1..Len(hist) : hist[i].op # "attach"
            /\ hist' = Append(hist, [op |-> "attach"])
DoClose == Close /\ (\E i \in 1..Len(hist) : hist[i].op = "attach") /\ UNCHANGED <<n, exp>> /\ hist' = Append(hist, [op |-> "close"])
Next == (\E t \in Threads : DoLog(t)) \/ DoLevel \/ DoAttach \/ DoClose
        \/ \E now \in BOOLEAN : Write(now) /\ UNCHANGED <<hist, n, exp>>
Spec == Init /\ [][Next]_vars
(* finished or held, nothing is lost or doubled on the way *)
Conserve == \A t \in Threads :
    Of(t, file \o held \o [i \in 1..Len(SelectSeq(chan, LAMBDA c : c.k \in {"msg", "flush"})) |->
                            SelectSeq(chan, LAMBDA c : c.k \in {"msg", "flush"})[i].m]) = accepted[t]
ViewAll == <<lvars, n>>
(* for test generation the writer is left out: one state per API history shape *)
GNext == (\E t \in Threads : DoLog(t)) \/ DoLevel \/ DoAttach \/ DoClose
GSpec == Init /\ [][GNext]_vars
GView == <<level, closed, n, [i \in 1..Len(chan) |-> chan[i].k], Len(exp)>>
Cover == (Emit /\ closed' = "asked") => PrintT("@@" \o ToJson([h |-> hist', exp |-> exp']))
=============================================================================
