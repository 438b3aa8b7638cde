SPECIFICATION Spec
CONSTANTS Types = {"T1", "T2"}
 Classes = {"C1", "C2", "C3", "C4"}
 Extra = {}
INVARIANTS Faithful Order
CHECK_DEADLOCK FALSE
