SPECIFICATION GSpec
CONSTANTS
  MaxN = 4
  MaxIter = 1
  BigN = 9
CHECK_DEADLOCK FALSE
