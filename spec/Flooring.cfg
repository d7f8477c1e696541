CONSTANTS
  Depth = 5
  MaxSteps = 14
SPECIFICATION FSpec
INVARIANTS OnlyGiven NoneMeansNone Steady
CHECK_DEADLOCK FALSE
