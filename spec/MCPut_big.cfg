SPECIFICATION Spec
CONSTANTS Top = 6
 MaxLen = 7
 Amounts <- AmtBig
 MaxPuts = 3
 Emit = TRUE
INVARIANT Total
PROPERTY Conserves
ACTION_CONSTRAINT Cover
VIEW View
CHECK_DEADLOCK FALSE
