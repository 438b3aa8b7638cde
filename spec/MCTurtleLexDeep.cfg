SPECIFICATION Spec
VIEW View
INVARIANT Framed Emit
CHECK_DEADLOCK FALSE
