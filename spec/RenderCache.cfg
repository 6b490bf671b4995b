SPECIFICATION Spec
CONSTANTS
  MaxNodes = 8
  Focus = "tree"
  Abstract = FALSE
  Nodes = 3
  NTiles = 1
  EditKinds = {"vis", "op", "bm", "mask"}
  MaxEv = 40
  Clones = TRUE
  Lossy = "none"
INVARIANTS NeverStale CacheCurrent
CHECK_DEADLOCK FALSE
