SPECIFICATION Spec
CONSTANTS
    Subj = 1
    Obj = 1
    MaxG = 3
    NG = 2
    ND = 2
    NN = 1
VIEW View
INVARIANT Typed
PROPERTIES Frame Done
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
