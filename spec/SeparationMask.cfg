CONSTANTS
  N = 2
  Ring = 12
  Points = 3
  Noise = 1
  Sweeps = 2
SPECIFICATION Spec
INVARIANTS Kept Close Decided
CHECK_DEADLOCK FALSE
