SPECIFICATION TSpec
CONSTANT Threads = {0,1,2,3,4,5,6,7,8,9,10,11}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
