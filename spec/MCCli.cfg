SPECIFICATION Spec
CONSTANTS Words <- Core
 MaxLen = 5
INVARIANTS Joins Ignored Runs
CHECK_DEADLOCK FALSE
