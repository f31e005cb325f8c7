SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxWorkers = 2 MaxIds = 4
