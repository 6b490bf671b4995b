SPECIFICATION Spec
CONSTANTS Malformed = FALSE
INVARIANTS Covers Fits Lossless Emit
CHECK_DEADLOCK FALSE
