SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxRefs = 3
 MaxConns = 3
