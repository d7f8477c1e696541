SPECIFICATION Spec
CONSTANTS
  Cols <- Cols3
  NBins = 2
  NFrames = 2
INVARIANTS Agree Reorders Aligns Stays
CHECK_DEADLOCK FALSE
