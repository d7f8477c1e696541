CONSTANTS
  Wide = FALSE
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
