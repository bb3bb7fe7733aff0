SPECIFICATION Spec
CONSTANTS Depth = 2
 Miss = 1
 Sorted = FALSE
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
