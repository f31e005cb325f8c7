SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxWrites = 3
 MaxSessions = 3
