SPECIFICATION Spec
CONSTANTS Small = FALSE
VIEW View
INVARIANTS EmitObs
PROPERTY Frame
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
