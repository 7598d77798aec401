SPECIFICATION Spec
CONSTANT Names = {"b", "a", "k10", "k2"}
CONSTANT Kinds = {"N"}
CONSTANT MaxSize = 4
CONSTANT FromData = FALSE
INVARIANT RoundTrip
INVARIANT SizeOk
INVARIANT MapTwice
INVARIANT MapKeepsShape
INVARIANT AccumulateOrder
INVARIANT HeightIsDeepest
INVARIANT ParentsFirst
CONSTRAINT EmitOk
CHECK_DEADLOCK FALSE
