SPECIFICATION Spec
CONSTANTS
  CKinds <- KindsC
  Names <- NamesC
  Whys <- WhysC
  WithRebuild = TRUE
  Depth = 3
INVARIANTS InStep Unique Kept Emit
PROPERTIES Grows
CHECK_DEADLOCK FALSE
