SPECIFICATION Spec
CONSTANTS Fams = {"opt"}
 Strikes = {700000, 970000, 1000000, 1300000}
 Days = {2, 80, 500}
 Vols = {"low", "mid", "surface"}
 Corrs <- CorrsAll
 MoveSets <- MovesQuick
 Fqs = {"monthly"}
 Lives = {100}
 Ixs = {""}
 Yields = {300}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
