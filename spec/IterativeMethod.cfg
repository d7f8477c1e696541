SPECIFICATION Spec
CONSTANTS
  Objs = {a, b}
  MaxIter = 2
  MaxCalls = 2
  MaxCb = 2
  MaxHand = 0
INVARIANTS UpdatesExact LossExact NotifiedExact CbOrder SplitInvariant
PROPERTIES Isolation ObserverPassive GrowOnly
CHECK_DEADLOCK FALSE
