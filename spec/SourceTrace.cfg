CONSTANT
  Iters = 1
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
