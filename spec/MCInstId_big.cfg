SPECIFICATION Spec
CONSTANTS Texts = {"a","b","c"}
 Vs = {"Undefined","KRX","KIS","CCP","SI"}
 MaxIds = 3
INVARIANT Interned
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
