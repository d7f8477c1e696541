CONSTANTS
  Srcs = {1}
  Bases = {1}
  Floor = 1
  Factors = {1}
  Powers = {1}
  Depth = 1
SPECIFICATION TSpec
