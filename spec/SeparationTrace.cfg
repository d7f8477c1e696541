CONSTANTS
  N = 2
  Columns = 2
  MaxMag = 3
  Base = 2
  MaxScale = 2
  Sweeps = 2
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
