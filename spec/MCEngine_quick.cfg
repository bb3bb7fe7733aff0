SPECIFICATION Spec
CONSTANTS Fams = {"each", "drawn"}
 Seed = 0
 Count = 250
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
