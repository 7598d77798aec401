SPECIFICATION Spec
INVARIANT SizeOk
INVARIANT Emit
CHECK_DEADLOCK FALSE
