CONSTANTS
  Bodies <- AllBodies
  Want <- WantAB
  OutMax = 40
  MaxBreaks = 1
  Again = TRUE
SPECIFICATION GSpec
INVARIANTS Faithful Conserved Waiting
CHECK_DEADLOCK FALSE
