SPECIFICATION TSpec
CONSTANTS
  Mixtures = {}
  Moves = {}
  MaxUpdates = 0
CHECK_DEADLOCK FALSE
