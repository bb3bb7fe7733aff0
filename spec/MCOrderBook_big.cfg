SPECIFICATION Spec
CONSTANTS Px = {1,2,3}
 Qty = {1,2,3}
 MaxLive = 4
 RawAdds = FALSE
 MaxLevelOps = 0
 Emit = TRUE
VIEW View
INVARIANTS WellFormed NotCrossed
PROPERTIES PriorityProp ConserveProp FilledProp LimitProp RestProp KeepPlaceProp UnknownProp
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
