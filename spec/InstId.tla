------------------------------- MODULE InstId -------------------------------
(* Interned instrument ids (trading-engine/src/types/id).  An id is nothing but its key
   (kind of symbol, text, venue); every way of making one must agree on that. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ids,   \* the keys of the ids made so far, in order
          cache  \* the keys interned so far
ivars == <<ids, cache>>
Venues == {"Undefined", "CCP", "KRX", "KIS", "SI"}
Kinds == {"isin", "ticker"}
Key(k, x, v) == <<k, x, v>>
DefaultKey == Key("isin", "", "KRX")
IInit == ids = <<>> /\ cache = {DefaultKey}
Make(key) == ids' = Append(ids, key) /\ cache' = cache \cup {key}
(* which earlier ids (and the id itself) the n-th id equals *)
EqualTo(is, n) == {j \in 1..n : is[j] = is[n]}
(* an id made by writing the n-th id out and reading it back, or by copying it *)
Again(n) == n \in 1..Len(ids) /\ Make(ids[n])
(* well-formedness of codes: an isin is exactly twelve ASCII characters none of which is white space,
   a ticker at most 32 bytes *)
CodeOk(kind, len, ascii, blank) == IF kind = "isin" THEN len = 12 /\ ascii /\ ~blank ELSE len <= 32
=============================================================================
