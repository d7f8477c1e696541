SPECIFICATION TSpec
CONSTANTS
  Entries = {}
  Sizes = {}
  Samples = {}
  Frames = 1
CHECK_DEADLOCK FALSE
