CONSTANTS
  Depth = 1
  MaxSteps = 1
  Rounds = 1
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
