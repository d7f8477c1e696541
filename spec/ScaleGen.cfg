SPECIFICATION GSpec
CONSTANTS
  Entries = {}
  Sizes = {}
  Samples = {}
  Frames = 1
  Cases = 120
  MaxN = 4
  Steps = 7
CHECK_DEADLOCK FALSE
