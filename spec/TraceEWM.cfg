SPECIFICATION TSpec
CONSTANT One = 1024
 Tol = 8
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
