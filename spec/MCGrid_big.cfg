SPECIFICATION Spec
CONSTANTS Top = 6
 MaxLen = 7
 Patterns = {1, 2, 3, 4}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
