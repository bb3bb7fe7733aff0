SPECIFICATION Spec
INVARIANT Laws
ACTION_CONSTRAINT Cover
CONSTANTS
  Inputs = {2}
  Days = {3}
  Lows <- LowsQ
  Highs <- HighsQ
  Depth = 3
  Emit = TRUE
CHECK_DEADLOCK FALSE
