SPECIFICATION Spec
CONSTANT Bases <- OneBase
CONSTANT Deltas <- OneDelta
CONSTANT FromData = FALSE
INVARIANT OthersIrrelevant
INVARIANT TwinImpliesPlain
INVARIANT OneSideOnly
INVARIANT Emit
CHECK_DEADLOCK FALSE
