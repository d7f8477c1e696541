CONSTANTS
  N = 2
  Entries = {}
  CovEntries = {}
  Weights = {1}
  Modes = {"ip1"}
  Frames = 2
  Samples = {}
SPECIFICATION TSpec
