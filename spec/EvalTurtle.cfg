SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Resolve <- Concat
