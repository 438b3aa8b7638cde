SPECIFICATION Spec
CONSTANTS WithPairs = TRUE
INVARIANTS Readable Distinct Once NeverMistaken Emit
CHECK_DEADLOCK FALSE
