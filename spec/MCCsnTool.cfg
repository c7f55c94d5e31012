SPECIFICATION Spec
CONSTANTS MaxRuns = 2
 Ids = {48}
 Keys = {1, 2}
 Big = FALSE
INVARIANTS NeverOverwritten Faithful NewComplete TwiceIsOriginal DerivedTwice
CHECK_DEADLOCK FALSE
