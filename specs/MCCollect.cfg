SPECIFICATION MCSpec
INVARIANT MCInv
PROPERTY MCStep
CHECK_DEADLOCK FALSE
CONSTANTS MaxWorkers = 2 MaxIds = 4
