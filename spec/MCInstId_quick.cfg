SPECIFICATION Spec
CONSTANTS Texts = {"a","b"}
 Vs = {"Undefined","KRX","KIS"}
 MaxIds = 3
INVARIANT Interned
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
