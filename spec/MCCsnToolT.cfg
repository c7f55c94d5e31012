SPECIFICATION Spec
CONSTANTS MaxRuns = 3
 Ids = {48}
 Keys = {1}
 Big = FALSE
INVARIANTS NeverOverwritten Faithful NewComplete TwiceIsOriginal DerivedTwice
CHECK_DEADLOCK FALSE
