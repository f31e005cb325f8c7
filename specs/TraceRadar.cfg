SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxRoc = 2
