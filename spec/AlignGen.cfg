SPECIFICATION GSpec
CONSTANTS
  Cols = {}
  NBins = 1
  NFrames = 1
  Cases = 160
CHECK_DEADLOCK FALSE
