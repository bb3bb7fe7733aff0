SPECIFICATION Spec
CONSTANTS Patterns = {"dist", "neg"}
 Faults = {"cut1", "lost", "half", "empty", "long", "inserted", "noend", "blankisin", "binisin", "binlong"}
 Cuts <- CutsFew
 Caps = {10}
 Isins = {"KR4301V13502", "KR4169V30013"}
 MaxSteps = 1
 AllCodes = FALSE
 Buffered = {TRUE, FALSE}
INVARIANT PublishedLengths
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
