SPECIFICATION Spec
CONSTANTS
 N = 4
 Deep = 4
INVARIANTS Laws Cover
CHECK_DEADLOCK FALSE
