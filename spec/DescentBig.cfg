CONSTANTS
  A = {1, 2}
  B = {1, 2}
  Vals = {0, 1, 2, 3}
  Gap = 1
  Steps = 3
  Stale = FALSE
SPECIFICATION DSpec
INVARIANTS Monotone BelowStart
