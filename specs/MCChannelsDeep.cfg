SPECIFICATION MCSpec
INVARIANT MCInv
PROPERTY MCStep
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxReal = 3
 MaxSamples = 3
 MaxEdits = 3
