SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS NF = 2
 NC = 3
 Reserved = 9
 MaxDrops = 2
 MaxDev = 3
