SPECIFICATION Spec
CONSTANTS
  Cols <- Cols2
  NBins = 3
  NFrames = 2
INVARIANTS Agree Reorders Aligns Stays
CHECK_DEADLOCK FALSE
