SPECIFICATION Spec
CONSTANTS Lens = {0, 1, 3}
 MaxCalls = 3
 MaxFaults = 3
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
