SPECIFICATION Spec
CONSTANTS Patterns = {"zero", "nine", "one", "top", "dist", "half", "neg"}
 Faults = {"none", "binhead", "endinside"}
 Cuts <- CutsAll
 Caps = {10}
 Isins = {"KR4301V13502", "KR4169V30013"}
 MaxSteps = 1
 AllCodes = TRUE
 Buffered = {TRUE, FALSE}
INVARIANT PublishedLengths
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
