SPECIFICATION Spec
VIEW View
INVARIANT Emit
CHECK_DEADLOCK FALSE
