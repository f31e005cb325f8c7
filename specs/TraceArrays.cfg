SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxEl = 3
