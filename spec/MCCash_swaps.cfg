SPECIFICATION Spec
CONSTANTS
 Kinds5 = {"irs", "crs", "fxswap", "fxfwd"}
 Lives = {366, 200}
 Fs = {"quarterly", "semiannually"}
 Cals <- CalsQuick
 Dcs = {"act365", "30360"}
 Ixs = {"term", "termholes", "weekly"}
 Gaps <- GapsQuick
 Fwds = {TRUE}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
