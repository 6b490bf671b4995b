SPECIFICATION Spec
CONSTANTS
  Focus = "all"
  MaxSteps = 1
INVARIANTS Possible KeepsAlpha SameTwice
CHECK_DEADLOCK FALSE
