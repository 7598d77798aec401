SPECIFICATION TSpec
CONSTANTS
    Categories <- CatsA
    Refused <- RefusedA
    Depth = 0
CHECK_DEADLOCK FALSE
