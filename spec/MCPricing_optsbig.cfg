SPECIFICATION Spec
CONSTANTS Fams = {"opt"}
 Strikes = {500000, 800000, 970000, 1000000, 1100000, 2000000}
 Days = {1, 20, 80, 200, 500, 1500}
 Vols = {"low", "mid", "high", "surface"}
 Corrs <- CorrsAll
 MoveSets <- MovesBig
 Fqs = {"monthly"}
 Lives = {100}
 Ixs = {""}
 Yields = {300}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
