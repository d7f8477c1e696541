SPECIFICATION TSpec
CONSTANTS
  MaxN = 9
  MaxIter = 9
CHECK_DEADLOCK FALSE
