SPECIFICATION Spec
CONSTANTS Fams = {"fut","std","bfu"}
 Strikes = {700000, 970000, 1000000, 1300000}
 Days = {40, 80, 300}
 Vols = {"low", "mid", "surface"}
 Corrs <- CorrsAll
 MoveSets <- MovesFut
 Fqs = {"monthly"}
 Lives = {100}
 Ixs = {""}
 Yields = {50, 340, 900}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
