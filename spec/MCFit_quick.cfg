SPECIFICATION Spec
CONSTANTS
 N = 3
 Deep = 3
INVARIANTS Laws Cover
CHECK_DEADLOCK FALSE
