CONSTANTS N = 3
 MaxMsgs = 4
SPECIFICATION Spec
INVARIANTS Filtered Told Progress
CHECK_DEADLOCK FALSE
