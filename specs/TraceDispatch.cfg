SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxSections = 3 MaxSamples = 2
