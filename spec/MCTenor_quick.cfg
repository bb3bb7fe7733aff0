SPECIFICATION Spec
CONSTANTS Years = {1999, 2000, 2023, 2024}
 Parts1 <- P1Quick
 Parts2 <- P2Quick
 Parts3 <- P3Quick
 Secs = {61200}
 MaxDepth = 1
 Emit = TRUE
INVARIANT Laws
PROPERTY Composes
ACTION_CONSTRAINT Cover
VIEW View
CHECK_DEADLOCK FALSE
