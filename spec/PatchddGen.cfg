SPECIFICATION Spec
CONSTANT MaxSrc = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
