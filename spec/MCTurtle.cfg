SPECIFICATION Spec
VIEW View
INVARIANTS Inv EmitDoc
PROPERTY Monotone
CHECK_DEADLOCK FALSE
CONSTANT Resolve <- Concat
