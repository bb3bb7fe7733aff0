SPECIFICATION Spec
INVARIANT Laws
ACTION_CONSTRAINT Cover
CONSTANTS
  Srcs = {"surface", "flat", "constant"}
  Grids = {1, 2}
  TWins <- TWinsQ
  XWins <- XWinsQ
  Depth = 2
  Emit = TRUE
CHECK_DEADLOCK FALSE
