CONSTANTS
  Iters = 1
  Cases = 20000
  MaxActs = 12
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
