SPECIFICATION SpecE
CONSTANTS Big = TRUE
INVARIANTS Inverse EmitE
CHECK_DEADLOCK FALSE
