CONSTANTS
  Iters = 1
  Grid = 12
SPECIFICATION ASpec
INVARIANT Arithmetic
CHECK_DEADLOCK FALSE
