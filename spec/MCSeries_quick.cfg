SPECIFICATION Spec
CONSTANTS MaxOps = 3
 Windows <- WinQ
 Markets <- MarketsQ
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
VIEW View
CHECK_DEADLOCK FALSE
