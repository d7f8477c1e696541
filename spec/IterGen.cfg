SPECIFICATION GSpec
CONSTANTS
  Objs = {1, 2}
  MaxIter = 2
  MaxCalls = 2
  MaxCb = 2
  MaxHand = 0
INVARIANTS Emit
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
