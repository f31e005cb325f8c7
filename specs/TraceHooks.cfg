SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxAdds = 2
 MaxFires = 1
 MaxSent = 3
