SPECIFICATION Spec
CONSTANTS Workers = {1, 2} NumBatches = 3 Locked = TRUE Await = TRUE
INVARIANTS NoDuplicate NothingInvented NothingLost
PROPERTIES Terminates CollectorStops
CHECK_DEADLOCK FALSE
