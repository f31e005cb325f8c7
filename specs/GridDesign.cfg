SPECIFICATION Spec
CONSTANTS Stages = 3 Points = 2 MaxBatch = 3 Sloppy = FALSE
INVARIANT Consistent
CHECK_DEADLOCK FALSE
