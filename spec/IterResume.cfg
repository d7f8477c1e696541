SPECIFICATION Spec
CONSTANTS
  Objs = {a}
  MaxIter = 3
  MaxCalls = 3
  MaxCb = 1
  MaxHand = 2
INVARIANTS UpdatesExact LossExact NotifiedExact CbOrder SplitInvariant
PROPERTIES Isolation ObserverPassive GrowOnly
CHECK_DEADLOCK FALSE
