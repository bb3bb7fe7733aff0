SPECIFICATION Spec
CONSTANTS Cuts = {1}
 LevelKind = "full"
 Extra = 0
 MaxLen = 2
 Kinds = {"q", "tq"}
VIEW View
PROPERTY MirrorLaw
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
