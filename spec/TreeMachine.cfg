SPECIFICATION Spec
CONSTANT Names = {"a", "b"}
CONSTANT MaxDepth = 3
CONSTANT MaxNodes = 6
CONSTANT MaxOps = 3
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT UniqueNames
INVARIANT PathsAgree
INVARIANT LookupIsListed
INVARIANT EachOnce
INVARIANT ParentsFirst
PROPERTY StepsOk
PROPERTY OrdersOk
CHECK_DEADLOCK FALSE
