SPECIFICATION Spec
CONSTANTS
    V = 2
VIEW View
INVARIANTS Function Equivalence EmitObs
PROPERTY Local
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
