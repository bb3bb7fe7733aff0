SPECIFICATION Spec
CONSTANTS Fams = {"more", "drawn"}
 Seed = 10000
 Count = 2500
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
