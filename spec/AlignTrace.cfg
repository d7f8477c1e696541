SPECIFICATION TSpec
CONSTANTS
  Cols = {}
  NBins = 1
  NFrames = 1
CHECK_DEADLOCK FALSE
