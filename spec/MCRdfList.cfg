SPECIFICATION Spec
CONSTANTS N = 3
 Kinds = {11, 12, 13, 14, 15, 16}
INVARIANTS Walked Emit
CHECK_DEADLOCK FALSE
