SPECIFICATION Spec
CONSTANTS Effs <- EffBig
 Lives <- LivesBig
 Lists <- ListsQuick
 Fs <- FsBig
 Gaps <- GapsQuick
 Emit = TRUE
INVARIANT Good
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
