SPECIFICATION Spec
CONSTANTS MaxOps = 4
 MaxShelf = 2
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
VIEW View
CHECK_DEADLOCK FALSE
