SPECIFICATION Spec
CONSTANTS
  CKinds <- Kinds2
  Names <- Names3
  Whys <- Whys1
  WithRebuild = TRUE
  Depth = 4
INVARIANTS InStep Unique Kept Emit
PROPERTIES Grows
CHECK_DEADLOCK FALSE
