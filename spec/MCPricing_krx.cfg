SPECIFICATION Spec
CONSTANTS Fams = {"krx"}
 Strikes = {700000, 970000, 1000000, 1300000}
 Days = {2, 80, 500}
 Vols = {"low", "mid", "surface"}
 Corrs <- CorrsAll
 MoveSets <- MovesQuick
 Fqs = {"quarterly","semiannually"}
 Lives = {100, 700}
 Ixs = {"", "term"}
 Yields = {340, 900}
 Emit = TRUE
INVARIANT Laws
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
