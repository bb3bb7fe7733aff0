SPECIFICATION Spec
CONSTANTS Top = 2
 MaxLen = 3
 Patterns = {1, 2}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
