SPECIFICATION Spec
CONSTANTS MaxDigits = 18
 Unuseds = {0, 1, 2, 5}
 AllFills = TRUE
INVARIANTS Laws Cover
CHECK_DEADLOCK FALSE
