SPECIFICATION Spec
CONSTANTS Years = {1999, 2000, 2020, 2021, 2022, 2023, 2100}
 Parts1 <- P1Big
 Parts2 <- P2Quick
 Parts3 <- P2Quick
 Secs = {0, 61200}
 MaxDepth = 1
 Emit = TRUE
INVARIANT Laws
PROPERTY Composes
ACTION_CONSTRAINT Cover
VIEW View
CHECK_DEADLOCK FALSE
