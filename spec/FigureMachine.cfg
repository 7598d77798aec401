SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS AsAnew OneSide Emit
PROPERTIES OthersStay
CHECK_DEADLOCK FALSE
