SPECIFICATION Spec
CONSTANTS
  MaxNodes = 9
  Focus = "tree"
INVARIANTS Mirrors Ordered Mutual Nearest Runs
CHECK_DEADLOCK FALSE
