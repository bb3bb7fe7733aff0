SPECIFICATION Spec
CONSTANTS PxA = {2,3}
 PxB = {1,2}
 MaxQ = 3
 Emit = TRUE
VIEW View
INVARIANTS WellFormed
PROPERTIES SnapProp IdemProp BackProp
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
