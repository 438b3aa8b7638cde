SPECIFICATION Spec
CONSTANT N = 3
INVARIANT Quotes Long Iris Locals Tagged
CHECK_DEADLOCK FALSE
