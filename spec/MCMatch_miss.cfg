SPECIFICATION Spec
CONSTANTS Depth = 2
 Miss = 2
 Sorted = TRUE
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
