SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxFrames = 2
 MaxPos = 4
