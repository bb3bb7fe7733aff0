SPECIFICATION Spec
CONSTANTS Insts = {1, 2, 3}
 Texts = {1, 2}
 Boxes = {1, 2, 3}
 Parts <- PartsQuick
 Steps = 4
 Big = FALSE
INVARIANTS Emit Laws
VIEW View
CHECK_DEADLOCK FALSE
