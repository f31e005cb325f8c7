SPECIFICATION MCSpec
INVARIANT MCInv
PROPERTY MCStep
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxEl = 3
