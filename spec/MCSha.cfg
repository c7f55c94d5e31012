SPECIFICATION Spec
CONSTANTS Lens = {0, 1, 2, 3}
 MaxCalls = 3
 MaxFaults = 3
INVARIANTS Right Clean
PROPERTIES GivenUp
CHECK_DEADLOCK FALSE
