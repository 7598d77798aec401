SPECIFICATION Spec
CONSTANT
    Pass = 1
INVARIANTS AllHold AllAffine Emit
CHECK_DEADLOCK FALSE
