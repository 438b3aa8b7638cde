SPECIFICATION Spec
CONSTANTS N = 5
 Namespaces = 2
INVARIANTS RoundTrip Longest Emit
CHECK_DEADLOCK FALSE
