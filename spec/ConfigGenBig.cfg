CONSTANTS
  Depth = 1
  Cases = 1720
  MaxLen = 8
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
