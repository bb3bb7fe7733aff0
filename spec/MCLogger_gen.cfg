SPECIFICATION GSpec
CONSTANTS Threads = {1,2}
 MaxMsgs = 3
 Levels = {2,3,4}
 Sets = {2,3,5}
 Emit = TRUE
VIEW GView
ACTION_CONSTRAINT Cover
CHECK_DEADLOCK FALSE
