SPECIFICATION Spec
CONSTANTS Cuts = {1}
 LevelKind = "mid"
 Extra = 0
 MaxLen = 3
 Kinds = {"q", "tq"}
VIEW View
PROPERTY MirrorLaw
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
