SPECIFICATION Spec
CONSTANTS Words <- All
 MaxLen = 5
INVARIANTS Joins Ignored Runs
CHECK_DEADLOCK FALSE
