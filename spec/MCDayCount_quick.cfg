SPECIFICATION Spec
CONSTANTS Years = {2023, 2024}
 Far = {1991, 2000, 2049}
 Emit = TRUE
INVARIANTS Laws Adds Unit
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
