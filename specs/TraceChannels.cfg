SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxReal = 2
 MaxSamples = 3
 MaxEdits = 2
