SPECIFICATION MCSpec
INVARIANT MCInv
PROPERTY MCStep
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxReal = 2
 MaxSamples = 2
 MaxEdits = 2
