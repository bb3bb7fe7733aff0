SPECIFICATION GSpec
CONSTANTS Threads = {1,2}
 MaxMsgs = 4
 Levels = {1,2,3,4,5}
 Sets = {0,1,2,3,4,5}
 Emit = TRUE
VIEW GView
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
