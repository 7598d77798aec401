SPECIFICATION Spec
CONSTANTS
    Oracles <- AnySequence
    Tols <- SmallTols
    MaxIters <- UpTo4
    Methods <- Both
INVARIANTS NeverTooMany StopsAtFirst NotBefore Prefix
CHECK_DEADLOCK FALSE
