CONSTANTS
  S = {}
  P = {}
  O = {}
  G = {}
  Default = "none"
  Free = "*"
  Batches = {}
  GraphBatches = {}
SPECIFICATION TraceSpec
VIEW TView
CHECK_DEADLOCK FALSE
