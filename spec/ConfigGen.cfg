CONSTANTS
  Depth = 1
  Cases = 344
  MaxLen = 5
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
