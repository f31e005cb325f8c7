SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxDev = 3
