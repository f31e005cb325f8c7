SPECIFICATION Spec
CONSTANTS Workers = {1, 2} NumBatches = 3 Locked = FALSE Await = TRUE
INVARIANTS NoDuplicate NothingInvented NothingLost
CHECK_DEADLOCK FALSE
