CONSTANTS
  A = {1, 2}
  B = {1, 2}
  Vals = {0, 1, 2}
  Gap = 1
  Steps = 2
  Stale = FALSE
SPECIFICATION DSpec
INVARIANTS Monotone BelowStart
