SPECIFICATION GSpec
CONSTANTS MaxRuns = 4
 Ids = {48, 65}
 Keys = {1, 2}
 Big = TRUE
INVARIANTS NeverOverwritten Faithful Emit
CHECK_DEADLOCK FALSE
