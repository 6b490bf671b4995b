SPECIFICATION Spec
CONSTANTS MaxLen = 6
 MinLen = 0
 Large = FALSE
INVARIANTS Complete Shape Balanced Emit
CHECK_DEADLOCK FALSE
