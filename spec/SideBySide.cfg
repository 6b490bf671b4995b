SPECIFICATION Spec
CONSTANTS
  Focus = "wide"
  MaxNodes = 6
  MaxEv = 30
  MaxRun = 5
  Exclusive = TRUE
INVARIANTS Alone Steady Overlap
CHECK_DEADLOCK FALSE
