SPECIFICATION TSpec
CONSTANTS
  MaxFrames = 2
  Rates = {8000}
CHECK_DEADLOCK FALSE
