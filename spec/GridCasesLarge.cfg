SPECIFICATION Spec
CONSTANT Shapes <- LargeShapes
CONSTANT Salt = 0
CONSTANT Deltas <- TwoDeltas
CONSTANT FromData = FALSE
INVARIANT StrictIsLoose
INVARIANT PerfectIsGrid
INVARIANT LinesKeepRectilinear
INVARIANT ParamBreaks
INVARIANT BoxesAreDecided
INVARIANT Emit
CHECK_DEADLOCK FALSE
