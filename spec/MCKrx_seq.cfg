SPECIFICATION Spec
CONSTANTS Patterns = {"dist", "half"}
 Faults = {"none", "noend", "blankisin"}
 Cuts <- CutsFew
 Caps = {3, 10}
 Isins = {"KR4169V30013"}
 MaxSteps = 2
 AllCodes = FALSE
 Buffered = {TRUE}
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
