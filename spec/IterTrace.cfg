SPECIFICATION TSpec
CONSTANTS
  Objs = {1, 2, 3}
  MaxIter = 9
  MaxCalls = 99
  MaxCb = 3
  MaxHand = 99
INVARIANTS TInv
CHECK_DEADLOCK FALSE
