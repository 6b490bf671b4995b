SPECIFICATION Spec
CONSTANTS
  MaxNodes = 8
  Focus = "tree"
  Abstract = TRUE
  Nodes = 3
  NTiles = 1
  EditKinds = {"vis", "bm"}
  MaxEv = 7
  Clones = FALSE
  Lossy = "none"
INVARIANTS NeverStale CacheCurrent
VIEW View
CHECK_DEADLOCK FALSE
