SPECIFICATION Spec
CONSTANT LeafNames = {"Coordinate", "XDistance", "DirectedDistance", "LineVector", "Length", "RelativePointOnLineDistance", "Width", "OuterMargin"}
CONSTANT Consts <- DefaultConsts
CONSTANT FromData = FALSE
CONSTANT Salt = 0
CONSTANT Pairs = FALSE
INVARIANT TypeOk
INVARIANT SizeOk
INVARIANT NegIsMul
INVARIANT Doubling
INVARIANT PartialAll
INVARIANT ScalarLast
INVARIANT MapOne
INVARIANT TargetZero
INVARIANT Emit
CHECK_DEADLOCK FALSE
