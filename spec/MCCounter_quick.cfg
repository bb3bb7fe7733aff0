SPECIFICATION Spec
CONSTANTS Threads = {1,2,3}
 Lasts <- LastsQuick
 MaxDraws = 5
 Emit = TRUE
VIEW View
INVARIANTS Consecutive Bounded Accepts Quiet
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
