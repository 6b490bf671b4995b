SPECIFICATION Spec
CONSTANTS
  MaxNodes = 8
  Focus = "wide"
  MaxLayers = 3
  MaxWorkers = 2
  Lossy = "none"
INVARIANTS Complete Honest
PROPERTY Returns
CHECK_DEADLOCK TRUE
