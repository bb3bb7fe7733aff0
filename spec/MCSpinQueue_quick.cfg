SPECIFICATION Spec
CONSTANTS Lists <- ListsQuick
 W = {0,5,15}
 MaxPub = 2
 Probes = TRUE
 Emit = TRUE
VIEW View
INVARIANTS Exclusive Untorn OnlyRegistered ExactlyOnce
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
