SPECIFICATION OSpec
CONSTANTS
  N = 2
  Frames = 2
  Depth = 1
INVARIANTS SameDet SameSignal
CHECK_DEADLOCK FALSE
