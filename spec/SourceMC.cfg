CONSTANTS
  Iters = 2
  Grid = 1
SPECIFICATION CSpec
INVARIANTS SchedOK EMOrder Fresh ExpoOK
CHECK_DEADLOCK FALSE
