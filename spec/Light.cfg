SPECIFICATION LightSpec
CONSTANTS
  Focus = "wide"
  MaxNodes = 1
INVARIANTS Between Composed Centred
CHECK_DEADLOCK FALSE
