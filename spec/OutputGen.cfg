SPECIFICATION GSpec
CONSTANTS
  Entries = {}
  Sizes = {}
  Samples = {}
  Frames = 1
  Cases = 60
  MaxN = 3
  Steps = 5
CHECK_DEADLOCK FALSE
