SPECIFICATION Spec
CONSTANTS
 Kinds5 = {"frn", "irs"}
 Lives = {200}
 Fs = {"quarterly"}
 Cals <- CalsQuick
 Dcs = {"act365", "30360"}
 Ixs = {"term", "termspread", "termholes", "weekly", "daily", "holes", "monthly", "stretch"}
 Gaps <- GapsQuick
 Fwds = {TRUE}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
