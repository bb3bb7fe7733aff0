SPECIFICATION Spec
CONSTANTS Windows <- WinBig
 Lists <- ListsBig
 Edits <- EditsBig
 MaxEdits = 2
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
VIEW View
CHECK_DEADLOCK FALSE
