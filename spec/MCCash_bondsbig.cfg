SPECIFICATION Spec
CONSTANTS
 Kinds5 = {"fixed", "strip", "frn", "given", "frngiven", "twice"}
 Lives = {366, 200, 731}
 Fs = {"quarterly", "semiannually"}
 Cals <- CalsBig
 Dcs = {"act365", "30360", "act360", "actact"}
 Ixs = {"term", "termspread", "weekly", "monthly"}
 Gaps <- GapsBig
 Fwds = {TRUE, FALSE}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
