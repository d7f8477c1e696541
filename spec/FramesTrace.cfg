CONSTANTS
  MaxLen = 4
  MaxT = 2
  Floor = 1
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
