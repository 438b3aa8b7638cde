CONSTANTS
  S = {"s1", "s2"}
  P = {"p1", "p2"}
  O = {"o1", "o2"}
  Free = "*"
  Batches <- MCBatches
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK IndexAgrees MatchExact ListingsExact EmitObs
PROPERTY Effect
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
