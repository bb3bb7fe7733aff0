SPECIFICATION Spec
CONSTANT MaxLen = 3
VIEW View
PROPERTIES NeverFarBehind SameTod Least
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
