SPECIFICATION Spec
CONSTANTS
    Oracles <- Geometric
    Tols <- OddTols
    MaxIters <- UpToDepth
    Methods <- Newton
INVARIANTS NeverTooMany StopsAtFirst NotBefore Prefix Emit
CHECK_DEADLOCK FALSE
