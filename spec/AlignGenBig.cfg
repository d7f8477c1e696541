SPECIFICATION GSpec
CONSTANTS
  Cols = {}
  NBins = 1
  NFrames = 1
  Cases = 1500
CHECK_DEADLOCK FALSE
