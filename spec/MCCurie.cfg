SPECIFICATION Spec
CONSTANTS N = 4
 Namespaces = 1
INVARIANTS RoundTrip Longest Emit
CHECK_DEADLOCK FALSE
