SPECIFICATION Spec
CONSTANTS MaxOps = 2
 Values <- ValuesQ
 Rates = {2, 4}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
VIEW View
CHECK_DEADLOCK FALSE
