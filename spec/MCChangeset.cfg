SPECIFICATION Spec
CONSTANTS Universe <- U4
 Preds = {"p1", "p2"}
INVARIANTS Reads Applies Emit
CHECK_DEADLOCK FALSE
