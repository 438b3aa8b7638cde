SPECIFICATION Spec
CONSTANTS
    Subj = 2
    Obj = 1
    MaxG = 3
    NG = 2
    ND = 1
    NN = 2
VIEW View
INVARIANT Typed
PROPERTIES Frame Done
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
