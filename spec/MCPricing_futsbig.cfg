SPECIFICATION Spec
CONSTANTS Fams = {"fut", "std", "bfu"}
 Strikes = {700000, 970000, 1000000, 1300000}
 Days = {35, 60, 100, 250, 400}
 Vols = {"low", "mid", "surface"}
 Corrs <- CorrsAll
 MoveSets <- MovesFut
 Fqs = {"monthly"}
 Lives = {100}
 Ixs = {""}
 Yields = {10, 50, 150, 340, 600, 900, 1500}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
