SPECIFICATION Spec
CONSTANTS Lens = {0, 2}
 MaxCalls = 2
 MaxFaults = 2
INVARIANTS Right
PROPERTIES GivenUp Ends
CHECK_DEADLOCK FALSE
