CONSTANTS
  S = {"s1", "s2"}
  P = {"p1"}
  O = {"o1"}
  G = {"g1", "g2"}
  Default = "none"
  Free = "*"
  Batches <- MCBatches
  GraphBatches <- MCGraphBatches
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK EmitObs
PROPERTIES Effect Failure
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
