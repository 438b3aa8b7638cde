SPECIFICATION Spec
CONSTANTS Types = {"T1", "T2", "T3"}
 Classes = {"C1", "C2", "C3", "C4"}
 Extra = {"U"}
VIEW View
INVARIANTS Faithful Order
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
