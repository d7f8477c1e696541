CONSTANTS
  A = {1}
  B = {1}
  Vals = {0}
  Gap = 1
  Steps = 1
  Stale = FALSE
SPECIFICATION TSpec
