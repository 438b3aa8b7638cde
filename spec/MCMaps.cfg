SPECIFICATION Spec
CONSTANTS Small = TRUE
VIEW View
INVARIANTS EmitObs
PROPERTY Frame
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
