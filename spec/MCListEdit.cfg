SPECIFICATION Spec
CONSTANTS
    N = 3
    X = 2
VIEW View
INVARIANTS Ends EmitObs
PROPERTY Local
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
