SPECIFICATION Spec
CONSTANTS Cuts = {1,2}
 LevelKind = "thin"
 Extra = 1
 MaxLen = 2
 Kinds = {"q", "tq"}
VIEW View
PROPERTY MirrorLaw
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
