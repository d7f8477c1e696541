CONSTANTS
  Iters = 1
  Cases = 450
  MaxActs = 6
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
