SPECIFICATION Spec
CONSTANTS MaxLen = 320
 MinLen = 20
 Large = TRUE
INVARIANTS Complete Shape Balanced Emit
CHECK_DEADLOCK FALSE
