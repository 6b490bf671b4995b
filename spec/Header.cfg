SPECIFICATION Spec
CONSTANT Wide = FALSE
INVARIANTS ReadBack Emit
CHECK_DEADLOCK FALSE
