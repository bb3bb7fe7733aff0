SPECIFICATION Spec
CONSTANTS
 Diag = {1, 2, 5}
 Low <- LowQ
 Sym <- SymQ
 BigDiag = {1, 3}
 BigLow <- BL
 Four = TRUE
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
