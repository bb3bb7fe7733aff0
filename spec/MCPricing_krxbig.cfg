SPECIFICATION Spec
CONSTANTS Fams = {"krx"}
 Strikes = {700000, 970000, 1000000, 1300000}
 Days = {2, 80, 500}
 Vols = {"low", "mid", "surface"}
 Corrs <- CorrsAll
 MoveSets <- MovesQuick
 Fqs = {"monthly", "quarterly", "semiannually", "annually"}
 Lives = {15, 100, 700}
 Ixs = {"", "term"}
 Yields = {1, 200, 900}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
