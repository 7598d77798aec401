SPECIFICATION Spec
CONSTANT Families = {"P", "PP", "L", "LL", "LLm", "LLc", "PL", "Q", "QQ"}
CONSTANT Points <- DefaultPoints
CONSTANT LinePoints <- DefaultLinePoints
CONSTANT FromData = FALSE
INVARIANT ZeroIffRelation
INVARIANT TranslationInvariant
INVARIANT RotationInvariant
INVARIANT Antisymmetric
INVARIANT Reversal
INVARIANT MarginDuality
INVARIANT AngleSense
INVARIANT PythagorasOk
INVARIANT Emit
CHECK_DEADLOCK FALSE
