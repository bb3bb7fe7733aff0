SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Windows <- WinB
 Markets <- MarketsB
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
VIEW View
CHECK_DEADLOCK FALSE
