SPECIFICATION TSpec
INVARIANTS Report RejectedIsInert Contiguous DoneIsAll
CHECK_DEADLOCK FALSE
