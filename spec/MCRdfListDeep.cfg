SPECIFICATION Spec
CONSTANTS N = 4
 Kinds = {11, 13, 15}
INVARIANTS Walked Emit
CHECK_DEADLOCK FALSE
