SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxF = 3
