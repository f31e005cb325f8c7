SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 2
 MaxPos = 6
 MaxEnc = 2
