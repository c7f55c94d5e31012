SPECIFICATION Spec
INVARIANTS TypeOk RejectedIsInert Contiguous DoneIsAll Out
CHECK_DEADLOCK FALSE
