------------------------------- MODULE Store --------------------------------
(* Objects on a shelf and texts in a drawer.  Writing an object leaves it as it was and puts a text into the drawer; reading a text
   puts a new object on the shelf that is what the written one was at that moment, and lives its own life from then on.
   An object is [t, v]: a calendar of any market with its edits, an evaluation date, a result sheet, a pair of currencies. *)
EXTENDS HolCal, Sheet
VARIABLES shelf, drawer
Obj(t, v) == [t |-> t, v |-> v]
Cal(ks) == Obj("cal", [i \in 1..Len(ks) |-> NewCal(ks[i])])
EvalDate(n) == Obj("date", n)
ASheet(s) == Obj("sheet", s)
Pair(a, b) == Obj("pair", <<a, b>>)
(* what can be done to an object: [op, i, n, c] *)
CanEdit(o, e) == CASE e.op \in {"add", "remove"} -> o.t = "cal" /\ Len(o.v) = 1
                   [] e.op = "move" -> o.t = "date"
                   [] e.op \in {"put", "npv", "value", "theta", "cash", "convert"} -> o.t = "sheet" /\ (e.op = "value" => CanValue(o.v))
                   [] e.op = "swap" -> o.t = "pair"
Edited(o, e) == [o EXCEPT !.v =
    CASE e.op = "add" -> <<AddHoliday(o.v[1], e.n)>>
      [] e.op = "remove" -> <<RemoveHoliday(o.v[1], e.n)>>
      [] e.op = "move" -> o.v + e.n
      [] e.op = "put" -> Put(o.v, e.c, "A", e.n)
      [] e.op = "npv" -> SetNpv(o.v, e.n)
      [] e.op = "value" -> SetValue(o.v)
      [] e.op = "theta" -> SetTheta(o.v, e.n)
      [] e.op = "cash" -> SetCash(o.v, e.n)
      [] e.op = "convert" -> Converted(o.v, e.c, e.n)
      [] e.op = "swap" -> <<o.v[2], o.v[1]>>]
(* the flows expected between two dates are not part of what is written *)
Kept(o) == IF o.t = "sheet" THEN [o EXCEPT !.v.cash = Nothing] ELSE o
Edit(i, e) == CanEdit(shelf[i], e) /\ shelf' = [shelf EXCEPT ![i] = Edited(@, e)] /\ UNCHANGED drawer
Write(i) == drawer' = Append(drawer, Kept(shelf[i])) /\ UNCHANGED shelf
Read(f) == shelf' = Append(shelf, drawer[f]) /\ UNCHANGED drawer
StoreInit(o) == shelf = <<o>> /\ drawer = <<>>
=============================================================================
