SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxEdits = 3
