SPECIFICATION Spec
CONSTANTS N = 4
 XS = {"none", "v1"}
 YS = {"none"}
INVARIANTS Downward Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
