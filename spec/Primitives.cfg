SPECIFICATION Spec
CONSTANTS
  FromData = FALSE
  MaxPoly = 6
INVARIANTS NothingDropped Closed PathsDistinct Emit
CHECK_DEADLOCK FALSE
