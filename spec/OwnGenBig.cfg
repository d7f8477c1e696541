SPECIFICATION GSpec
CONSTANTS
  Cases = 3000
CHECK_DEADLOCK FALSE
