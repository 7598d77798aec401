SPECIFICATION Spec
CONSTANTS
  FromData = FALSE
INVARIANTS SubKindClosed TableAgrees Emit
CHECK_DEADLOCK FALSE
