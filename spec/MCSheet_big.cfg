SPECIFICATION Spec
CONSTANTS MaxOps = 3
 Values <- ValuesB
 Rates = {2}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
VIEW View
CHECK_DEADLOCK FALSE
