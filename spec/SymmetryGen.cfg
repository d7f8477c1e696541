CONSTANTS
  Depth = 1
  Cases = 120
  MaxLen = 3
  Shapes <- ShapesV
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
