SPECIFICATION GSpec
CONSTANTS
  Cases = 400
CHECK_DEADLOCK FALSE
