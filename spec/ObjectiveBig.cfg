SPECIFICATION OSpec
CONSTANTS
  N = 2
  Frames = 2
  Depth = 2
INVARIANTS SameDet SameSignal
CHECK_DEADLOCK FALSE
