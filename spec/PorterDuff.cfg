SPECIFICATION Spec
CONSTANTS
  Focus = "all"
INVARIANTS Valid Algebra
CHECK_DEADLOCK FALSE
