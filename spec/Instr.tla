-------------------------------- MODULE Instr --------------------------------
(* What an instrument answers about itself: what it was made with, nothing for what it may lack, and a refusal for what an
   instrument of its kind does not have.  "open": the kind has such a thing, but the code does not say. *)
EXTENDS Integers, Sequences
Types == {"Futures", "FxFutures", "VanillaCall", "VanillaPut", "Stock", "Cash", "KTBF", "Fixed", "Float", "Strip", "IRS", "CRS", "FxSwap", "FxForward", "FxSpot"}
Options == {"VanillaCall", "VanillaPut"}
Bonds == {"Fixed", "Float", "Strip"}
Swaps == {"IRS", "CRS", "FxSwap", "FxForward", "FxSpot"}
Legs == {"IRS", "CRS"}
Listed == {"Futures", "FxFutures"}
(* whether parts of these kinds make such an instrument *)
Possible(x) == /\ x.t = "IRS" => x.und = x.ccy
               /\ x.t \in Swaps \ {"IRS"} => x.und # x.ccy
               /\ x.t = "FxFutures" => x.und # x.ccy
Only(x, S, v) == IF x.t \in S THEN v ELSE "refused"
Pair(x) == x.und \o x.ccy
(* x: t, code, und code, ccy, und(erlying or floating currency), unit, price, dates m(aturity) and i(ssue) and p(ricing), strike ... *)
Answer(x, a) ==
    CASE a = "code" -> x.code
      [] a = "name" -> "name of " \o x.code
      [] a = "ccy" -> x.ccy
      [] a = "type" -> IF x.t \in Bonds THEN "Bond" ELSE x.t
      [] a = "unit" -> IF x.t \in {"Stock", "Cash"} THEN "1" ELSE x.unit
      [] a = "price" -> IF x.t \in Listed THEN x.price ELSE "0"
      [] a = "maturity" -> IF x.t \in {"Stock", "Cash"} THEN "none" ELSE x.m
      [] a = "und" -> IF x.t \in Options \cup {"Futures", "Stock"} THEN x.s ELSE ""
      [] a = "volcodes" -> IF x.t \in Options THEN x.s ELSE ""
      [] a = "quanto" -> IF x.t \in Options /\ x.und # x.ccy THEN x.s \o ":" \o Pair(x) ELSE ""
      [] a = "fxcodes" -> IF x.t \in Swaps \cup {"FxFutures"} /\ x.und # x.ccy THEN Pair(x) ELSE ""
      [] a = "tags" -> IF x.t = "KTBF" THEN x.s ELSE ""
      [] a = "rating" -> Only(x, Bonds, x.rating)
      [] a = "issuertype" -> Only(x, Bonds, x.issuer)
      [] a = "rank" -> Only(x, Bonds, x.rank)
      [] a = "issuer" -> Only(x, Bonds, "issuer of " \o x.code)
      [] a = "index" -> IF x.t \in Legs \cup {"Float"} THEN x.ix ELSE Only(x, Bonds \cup Swaps, "none")
      [] a = "pricing" -> Only(x, Bonds, x.p)
      [] a = "strip" -> Only(x, Bonds, IF x.t = "Strip" THEN "true" ELSE "false")
      [] a = "bonds" -> Only(x, {"KTBF"}, x.nb)
      [] a = "freq" -> IF x.t \in Swaps THEN "open" ELSE Only(x, Bonds, x.f)
      [] a = "calendar" -> IF x.t \in Swaps THEN "open" ELSE Only(x, Bonds, "1")
      [] a = "issue" -> IF x.t \in Bonds THEN x.i ELSE IF x.t \in {"Stock", "Cash"} THEN "refused" ELSE "open"
      [] a = "schedule" -> IF x.t \in Swaps THEN "open" ELSE Only(x, Bonds, x.nb)
      [] a = "virtual" -> Only(x, {"KTBF"}, "100")      \* at a yield of its own rate
      [] a = "flows" -> IF x.t = "Float" /\ x.nb # "0" THEN "refused"     \* there is no curve to project its coupons on
                        ELSE Only(x, Bonds, "answers")
      [] a = "fixedflows" -> Only(x, Swaps, "answers")
      [] a = "floatflows" -> Only(x, Swaps, "answers")
      [] a = "fixccy" -> Only(x, Swaps, x.ccy)
      [] a = "floatccy" -> Only(x, Swaps, x.und)
      [] a = "undccy" -> Only(x, Options \cup Listed, x.und)
      [] a = "strike" -> Only(x, Options, x.strike)
      [] a = "option" -> Only(x, Options, IF x.t = "VanillaCall" THEN "Call" ELSE "Put")
      [] a = "settle" -> Only(x, Options, x.settle)
      [] a = "futfx" -> Only(x, {"FxFutures"}, Pair(x))
      [] a = "swapfx" -> Only(x, Swaps, IF x.und = x.ccy THEN "none" ELSE Pair(x))
      [] a = "swaptype" -> Only(x, Swaps, x.t)
Attributes == {"code", "name", "ccy", "type", "unit", "price", "maturity", "und", "volcodes", "quanto", "fxcodes", "tags", "rating", "issuertype", "rank", "issuer", "index", "pricing", "strip",
    "bonds", "freq", "calendar", "issue", "schedule", "virtual", "flows", "fixedflows", "floatflows", "fixccy", "floatccy", "undccy", "strike", "option", "settle", "futfx", "swapfx", "swaptype"}
Answers(x) == [a \in Attributes |-> Answer(x, a)]
=============================================================================
