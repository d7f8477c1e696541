CONSTANTS
  Srcs = {1, 2}
  Bases = {1, 2}
  Floor <- FloorV
  Factors <- FactorsV
  Powers <- PowersV
  Depth = 1
SPECIFICATION FSpec
INVARIANTS Positive WeightsSumToOne Floored SameRatio
