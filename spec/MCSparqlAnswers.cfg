SPECIFICATION Spec
CONSTANTS WithPairs = FALSE
INVARIANTS Readable Distinct Once NeverMistaken Emit
CHECK_DEADLOCK FALSE
