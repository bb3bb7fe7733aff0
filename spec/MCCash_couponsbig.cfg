SPECIFICATION Spec
CONSTANTS
 Kinds5 = {"frn", "irs"}
 Lives = {200, 366}
 Fs = {"quarterly", "semiannually"}
 Cals <- CalsBig
 Dcs = {"act365", "actact"}
 Ixs = {"term", "termspread", "termholes", "weekly", "daily", "holes", "monthly", "stretch"}
 Gaps <- GapsBig
 Fwds = {TRUE, FALSE}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
