SPECIFICATION Spec
CONSTANTS
 Kinds5 = {"irs", "crs", "fxswap", "fxfwd"}
 Lives = {366, 200, 731}
 Fs = {"quarterly", "semiannually"}
 Cals <- CalsBig
 Dcs = {"act365", "30360", "actact"}
 Ixs = {"term", "termholes", "weekly", "holes", "monthly"}
 Gaps <- GapsBig
 Fwds = {TRUE, FALSE}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
