SPECIFICATION Spec
INVARIANT Laws
ACTION_CONSTRAINT Cover
CONSTANTS
  Inputs = {3}
  Days = {2}
  Lows <- LowsB
  Highs <- HighsB
  Depth = 2
  Emit = TRUE
CHECK_DEADLOCK FALSE
