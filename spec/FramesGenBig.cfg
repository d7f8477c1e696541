CONSTANTS
  MaxLen = 4
  MaxT = 2
  Floor = 1
  Rounds = 800
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
