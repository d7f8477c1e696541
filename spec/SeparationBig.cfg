CONSTANTS
  N = 3
  Columns = 4
  MaxMag = 2
  Base = 1
  MaxScale = 1
  Sweeps = 1
SPECIFICATION Spec
INVARIANTS Stays Diagonal Positive Image Needed
CHECK_DEADLOCK FALSE
