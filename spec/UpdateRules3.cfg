CONSTANTS
  N = 3
  Entries <- EntriesReal
  CovEntries <- CovReal
  Weights = {1}
  Modes = {"ip1"}
  Covs <- Covs3
  Frames = 2
  Samples <- SamplesW
SPECIFICATION USpec
INVARIANTS IP1Now IP1Sweep IP1Alive
