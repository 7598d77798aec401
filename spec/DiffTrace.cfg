SPECIFICATION Spec
CONSTANTS
    ValueTol = 5
    SlopeTol = 60
INVARIANT Emit
CHECK_DEADLOCK FALSE
