SPECIFICATION GSpec
CONSTANTS
  Objs = {1, 2}
  MaxIter = 1
  MaxCalls = 3
  MaxCb = 1
  MaxHand = 0
INVARIANTS Emit
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
