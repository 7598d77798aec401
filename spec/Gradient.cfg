SPECIFICATION Spec
CONSTANTS
    Pass = 0
INVARIANTS FormsAgree Translation Uninvolved GEmit
CHECK_DEADLOCK FALSE
