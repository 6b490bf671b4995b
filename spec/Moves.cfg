SPECIFICATION Spec
CONSTANTS
  Focus = "wide"
  MaxNodes = 5
INVARIANTS Permutes RoundTrip Holds Bounded
CHECK_DEADLOCK FALSE
