CONSTANTS
  Depth = 1
  MaxSteps = 1
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
