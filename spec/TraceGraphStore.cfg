CONSTANTS
  S = {}
  P = {}
  O = {}
  Free = "*"
  Batches = {}
SPECIFICATION TraceSpec
VIEW TView
INVARIANTS IndexAgrees ListingsExact
CHECK_DEADLOCK FALSE
