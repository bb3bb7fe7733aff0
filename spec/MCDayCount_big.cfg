SPECIFICATION Spec
CONSTANTS Years = {2019, 2020, 2021, 2023, 2024}
 Far = {1970, 1991, 2000, 2012, 2049, 2060}
 Emit = TRUE
INVARIANTS Laws Adds Unit
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
