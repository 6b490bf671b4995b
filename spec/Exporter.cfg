SPECIFICATION Spec
CONSTANTS
  MaxNodes = 14
  Focus = "tree"
INVARIANTS Leads Unique Bottom All
CHECK_DEADLOCK FALSE
