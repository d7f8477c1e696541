CONSTANTS
  Iters = 1
  Grid = 9
SPECIFICATION ASpec
INVARIANT Arithmetic
CHECK_DEADLOCK FALSE
