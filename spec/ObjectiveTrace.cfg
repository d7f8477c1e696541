SPECIFICATION TSpec
CONSTANTS
  N = 2
  Frames = 2
  Depth = 1
CHECK_DEADLOCK FALSE
