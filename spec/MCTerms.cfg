SPECIFICATION SpecE
CONSTANTS Big = FALSE
INVARIANTS Inverse EmitE
CHECK_DEADLOCK FALSE
