SPECIFICATION Spec
VIEW View
INVARIANTS Incremental Shape Compose EmitDoc
PROPERTY Monotone
CHECK_DEADLOCK FALSE
