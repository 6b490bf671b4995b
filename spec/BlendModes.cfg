SPECIFICATION Spec
CONSTANTS
  Focus = "all"
  Alphas = {0, 1, 128, 254, 255}
INVARIANTS Bounded Edges Formulas
CHECK_DEADLOCK FALSE
