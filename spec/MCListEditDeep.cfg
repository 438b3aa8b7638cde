SPECIFICATION Spec
CONSTANTS
    N = 4
    X = 1
VIEW View
INVARIANTS Ends EmitObs
PROPERTY Local
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
