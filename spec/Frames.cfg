CONSTANTS
  MaxLen = 4
  MaxT = 2
  Floor = 1
SPECIFICATION FSpec
INVARIANTS Unharmed Average Factor Sum
CHECK_DEADLOCK FALSE
