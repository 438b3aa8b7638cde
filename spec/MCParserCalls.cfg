CONSTANTS
  Scenarios <- MCScenarios
  Labels = {"a", "b", "c"}
  Constants = {"x", "y"}
SPECIFICATION Spec
VIEW View
INVARIANTS Scoped Effective Rejects NothingEarly EmitDone
PROPERTY Terminates
CHECK_DEADLOCK FALSE
