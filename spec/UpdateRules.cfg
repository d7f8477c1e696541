CONSTANTS
  N = 2
  Entries <- EntriesV
  CovEntries <- CovEntriesV
  Weights = {1, 2}
  Modes = {"ip1", "iss1", "grad"}
  Frames = 2
  Samples <- SamplesW
SPECIFICATION USpec
INVARIANTS IP1Now IP1Sweep IP1Alive GradForms
PROPERTY ISS1Now
