SPECIFICATION Spec
CONSTANTS Fams = {"drawn"}
 Seed = 50000
 Count = 12000
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
