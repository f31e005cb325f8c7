SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxAdds = 5
