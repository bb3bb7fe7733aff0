SPECIFICATION Spec
CONSTANTS MaxOps = 5
 MaxShelf = 3
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
VIEW View
CHECK_DEADLOCK FALSE
