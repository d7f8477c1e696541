CONSTANTS
  Depth = 1
  MaxSteps = 1
  Rounds = 12
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
