SPECIFICATION Spec
CONSTANTS One = 1048576
 Rates = {0, 1, 2, 99}
 Xs <- XsQuick
 Ds = {0, 1, 2}
 MaxLen = 4
 Emit = TRUE
INVARIANTS SumIsClosedForm AvgIsClosedForm AvgInRange
PROPERTY NoMove
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
