SPECIFICATION Spec
CONSTANT Bases <- AllBases
CONSTANT Deltas <- TwoDeltas
CONSTANT FromData = FALSE
INVARIANT OthersIrrelevant
INVARIANT TwinImpliesPlain
INVARIANT OneSideOnly
INVARIANT Emit
CHECK_DEADLOCK FALSE
