SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxTime = 4 Stages = 2
