SPECIFICATION Spec
CONSTANTS N = 3
 XS = {"none", "v1", "v2"}
 YS = {"none", "v1"}
INVARIANTS Downward Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
