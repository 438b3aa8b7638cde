SPECIFICATION Spec
CONSTANTS N = 3
 Deep = FALSE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
