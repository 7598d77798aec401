SPECIFICATION Spec
CONSTANT Shapes <- SmallShapes
CONSTANT Salt = 0
CONSTANT Deltas <- OneDelta
CONSTANT FromData = FALSE
INVARIANT StrictIsLoose
INVARIANT PerfectIsGrid
INVARIANT LinesKeepRectilinear
INVARIANT ParamBreaks
INVARIANT BoxesAreDecided
INVARIANT Emit
CHECK_DEADLOCK FALSE
