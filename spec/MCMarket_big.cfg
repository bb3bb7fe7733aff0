SPECIFICATION Spec
INVARIANT Laws
ACTION_CONSTRAINT Cover
CONSTANTS
  Worlds = {1, 2, 3, 4}
  Depth = 3
  Rich = TRUE
  Emit = TRUE
CHECK_DEADLOCK FALSE
