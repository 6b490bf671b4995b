SPECIFICATION Spec
CONSTANTS
  Rs = {2, 4, 5}
  Kinds = {"good", "short", "over", "cut"}
INVARIANTS Verdict Own Apart Emit
CHECK_DEADLOCK FALSE
