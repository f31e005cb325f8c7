SPECIFICATION Spec
CONSTANTS Stages = 3 Points = 2 MaxBatch = 3 Sloppy = TRUE
INVARIANT Consistent
CHECK_DEADLOCK FALSE
