SPECIFICATION GSpec
CONSTANTS
  Objs = {1}
  MaxIter = 3
  MaxCalls = 3
  MaxCb = 1
  MaxHand = 1
INVARIANTS Emit
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
