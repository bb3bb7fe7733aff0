SPECIFICATION Spec
INVARIANT Laws
ACTION_CONSTRAINT Cover
CONSTANTS
  Inputs = {1, 2, 3, 4}
  Days = {1, 2}
  Lows <- LowsQ
  Highs <- HighsQ
  Depth = 2
  Emit = TRUE
CHECK_DEADLOCK FALSE
