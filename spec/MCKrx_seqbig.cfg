SPECIFICATION Spec
CONSTANTS Patterns = {"dist", "half", "neg"}
 Faults = {"none", "noend", "blankisin", "half", "binlong"}
 Cuts <- CutsAll
 Caps = {3, 10}
 Isins = {"KR4169V30013"}
 MaxSteps = 2
 AllCodes = FALSE
 Buffered = {TRUE}
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
