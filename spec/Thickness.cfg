SPECIFICATION Spec
CONSTANTS
    Frame <- F
    Boxes <- B
INVARIANTS Right Undone LabelIsIgnored
CHECK_DEADLOCK FALSE
