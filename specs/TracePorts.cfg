SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxPorts = 2
