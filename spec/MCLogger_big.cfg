SPECIFICATION Spec
CONSTANTS Threads = {1,2}
 MaxMsgs = 4
 Levels = {1,3,5}
 Sets = {0,3,5}
 Emit = FALSE
VIEW ViewAll
INVARIANTS Complete NoForeign Conserve
CHECK_DEADLOCK FALSE
