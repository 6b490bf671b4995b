SPECIFICATION Spec
CONSTANTS
  Focus = "clip"
  MaxWorkers = 3
  Lossy = "none"
INVARIANTS ClipRight ClipNone AsIfCopied
CHECK_DEADLOCK FALSE
