SPECIFICATION Spec
CONSTANTS Malformed = FALSE
INVARIANTS Lossless Verdict Counted Sized Emit
CHECK_DEADLOCK FALSE
