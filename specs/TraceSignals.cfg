SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 3
