SPECIFICATION Spec
CONSTANTS
 Man <- MQ
 Exp <- EB
 Spans <- SQ
 Years = {1970, 1999, 2024, 2100}
 Lists <- LQ
 Flows <- FlowsQ
INVARIANTS Laws Cover
CHECK_DEADLOCK FALSE
