SPECIFICATION Spec
CONSTANT N = 4
INVARIANT Quotes Long Iris Locals Tagged
CHECK_DEADLOCK FALSE
