SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxChain = 99
