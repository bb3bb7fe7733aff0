SPECIFICATION Spec
CONSTANTS Top = 6
 MaxLen = 4
 Amounts <- AmtQuick
 MaxPuts = 2
 Emit = TRUE
INVARIANT Total
PROPERTY Conserves
ACTION_CONSTRAINT Cover
VIEW View
CHECK_DEADLOCK FALSE
