SPECIFICATION Spec
CONSTANTS Malformed = TRUE
INVARIANTS Lossless Verdict Counted Sized Emit
CHECK_DEADLOCK FALSE
