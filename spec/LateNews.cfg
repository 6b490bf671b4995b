SPECIFICATION Spec
CONSTANTS
  N = 2
  Tiles = 2
  MaxEv = 12
  Keep = FALSE
  Lossy = "none"
INVARIANTS Current Kept
VIEW View
CHECK_DEADLOCK FALSE
