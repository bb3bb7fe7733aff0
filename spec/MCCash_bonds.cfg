SPECIFICATION Spec
CONSTANTS
 Kinds5 = {"fixed", "strip", "frn", "given", "frngiven", "twice"}
 Lives = {366, 200}
 Fs = {"quarterly", "semiannually"}
 Cals <- CalsQuick
 Dcs = {"act365", "30360"}
 Ixs = {"term", "termspread", "weekly"}
 Gaps <- GapsQuick
 Fwds = {TRUE, FALSE}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
