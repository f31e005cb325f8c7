SPECIFICATION Spec
CONSTANTS Workers = {1, 2} NumBatches = 3 Locked = TRUE Await = FALSE
INVARIANTS NoDuplicate NothingInvented NothingLost
CHECK_DEADLOCK FALSE
