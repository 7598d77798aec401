SPECIFICATION Spec
CONSTANTS
  Pool = 3
  MaxPrims = 2
  QuadPool = 2
INVARIANTS Invariants Emit
CHECK_DEADLOCK FALSE
