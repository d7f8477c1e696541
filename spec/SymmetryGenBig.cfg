CONSTANTS
  Depth = 1
  Cases = 1500
  MaxLen = 5
  Shapes <- ShapesBig
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
