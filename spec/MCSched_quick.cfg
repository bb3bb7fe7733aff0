SPECIFICATION Spec
CONSTANTS Effs <- EffQuick
 Lives <- LivesQuick
 Lists <- ListsQuick
 Fs <- FsQuick
 Gaps <- GapsQuick
 Emit = TRUE
INVARIANT Good
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
