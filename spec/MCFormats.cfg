SPECIFICATION Spec
VIEW View
INVARIANTS Inclusion Carried Emit
CHECK_DEADLOCK FALSE
