SPECIFICATION Spec
CONSTANTS
    Depth = 3
    Figures = 2
INVARIANTS OnlyThickness UpToDate Emit
PROPERTIES Before
CHECK_DEADLOCK FALSE
