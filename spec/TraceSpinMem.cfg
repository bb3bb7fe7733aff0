SPECIFICATION TSpec
INVARIANTS Exclusive Untorn OnlyRegistered ExactlyOnce
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
