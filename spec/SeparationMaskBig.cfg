CONSTANTS
  N = 2
  Ring = 13
  Points = 4
  Noise = 1
  Sweeps = 3
SPECIFICATION Spec
INVARIANTS Kept Close Decided
CHECK_DEADLOCK FALSE
