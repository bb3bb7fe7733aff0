SPECIFICATION Spec
CONSTANTS Top = 3
 MaxLen = 3
 Patterns = {1, 2, 3}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
