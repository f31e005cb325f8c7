SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxGens = 4
 MaxDraws = 2
