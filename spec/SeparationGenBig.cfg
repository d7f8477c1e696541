CONSTANTS
  N = 2
  Columns = 2
  MaxMag = 3
  Base = 2
  MaxScale = 2
  Sweeps = 2
  Rounds = 1200
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
