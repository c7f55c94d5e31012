SPECIFICATION Spec
CONSTANTS Lens = {0, 1, 2, 3, 5}
 MaxCalls = 4
 MaxFaults = 3
INVARIANTS Right Clean
PROPERTIES GivenUp
CHECK_DEADLOCK FALSE
