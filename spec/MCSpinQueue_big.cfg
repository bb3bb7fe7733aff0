SPECIFICATION Spec
CONSTANTS Lists <- ListsBig
 W = {0,1,5,7,8,14,15}
 MaxPub = 2
 Probes = TRUE
 Emit = TRUE
VIEW View
INVARIANTS Exclusive Untorn OnlyRegistered ExactlyOnce
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
