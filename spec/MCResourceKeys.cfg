SPECIFICATION Spec
INVARIANT Frame DeleteEmpties ReadBack Idempotent OneValue
CHECK_DEADLOCK FALSE
