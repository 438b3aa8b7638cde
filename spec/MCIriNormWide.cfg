SPECIFICATION Spec
CONSTANTS N = 3
 Deep = TRUE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
