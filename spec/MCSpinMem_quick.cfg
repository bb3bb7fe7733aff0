SPECIFICATION Spec
CONSTANTS Workers = {1,2}
 MaxPub = 2
CONSTRAINT Bounded
ACTION_CONSTRAINT Noted
INVARIANTS Ordered Fresh
POSTCONDITION AllNeeded
CHECK_DEADLOCK FALSE
