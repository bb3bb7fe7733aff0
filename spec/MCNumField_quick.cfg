SPECIFICATION Spec
CONSTANTS MaxDigits = 18
 Unuseds = {0, 2}
 AllFills = FALSE
INVARIANTS Laws Cover
CHECK_DEADLOCK FALSE
