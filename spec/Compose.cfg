SPECIFICATION Spec
CONSTANTS
  MaxNodes = 8
  Focus = "tree"
INVARIANTS Bounded NothingOutside HiddenIsNothing
CHECK_DEADLOCK FALSE
