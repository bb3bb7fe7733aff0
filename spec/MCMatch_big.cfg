SPECIFICATION Spec
CONSTANTS Depth = 3
 Miss = 1
 Sorted = TRUE
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
