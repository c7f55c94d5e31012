CONSTANTS
  Bodies <- AllBodies
  Want <- WantAB
  OutMax = 3
  MaxBreaks = 1
  Again = TRUE
SPECIFICATION Spec
INVARIANTS Faithful Conserved Waiting
PROPERTY Ends
CHECK_DEADLOCK FALSE
