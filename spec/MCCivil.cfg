SPECIFICATION Spec
CONSTANT Last = 85000
INVARIANT Right
CHECK_DEADLOCK FALSE
