SPECIFICATION MCSpec
INVARIANT MCInv
PROPERTY MCStep
CHECK_DEADLOCK FALSE
CONSTANTS NF = 2
 NC = 1
 Reserved = 9
 MaxDrops = 1
 MaxDev = 2
