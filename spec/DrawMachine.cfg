SPECIFICATION Spec
CONSTANTS
    Calls = 2
    FreeDepth = 99
INVARIANTS Complete Shallow Emit
PROPERTIES Stays
CHECK_DEADLOCK FALSE
