SPECIFICATION Spec
CONSTANTS Windows <- WinQuick
 Lists <- ListsQuick
 Edits <- EditsQuick
 MaxEdits = 2
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
VIEW View
CHECK_DEADLOCK FALSE
