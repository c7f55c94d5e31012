SPECIFICATION TSpec
INVARIANT Report
CHECK_DEADLOCK FALSE
