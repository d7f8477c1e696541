SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxIter = 2
INVARIANTS TypeOk OrderKept OnlyTouched Exact Laws
CHECK_DEADLOCK FALSE
