SPECIFICATION Spec
CONSTANTS
    Categories <- CatsA
    Refused <- RefusedA
    Depth = 4
INVARIANTS Increasing Below Consecutive Emit
PROPERTY Independent
CHECK_DEADLOCK FALSE
