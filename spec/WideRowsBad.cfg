SPECIFICATION Spec
CONSTANTS Malformed = TRUE
INVARIANTS Covers Fits Lossless Emit
CHECK_DEADLOCK FALSE
