SPECIFICATION Spec
CONSTANTS
    Subj = 2
    Obj = 4
    MaxG = 1
    NG = 1
    ND = 0
    NN = 2
VIEW View
INVARIANT Typed
PROPERTIES Frame Done
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
