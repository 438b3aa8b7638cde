SPECIFICATION Spec
CONSTANTS N = 4
 Deep = FALSE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
