SPECIFICATION Spec
CONSTANTS Top = 5
 MaxLen = 3
 Patterns = {1, 4}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
