SPECIFICATION Spec
CONSTANTS
  N = 3
  Tiles = 2
  MaxEv = 60
  Keep = TRUE
  Lossy = "none"
INVARIANTS Current Kept
CHECK_DEADLOCK FALSE
