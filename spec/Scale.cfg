SPECIFICATION SSpec
CONSTANTS
  Entries <- SmallEntries
  Sizes <- SmallSizes
  Samples <- SmallSamples
  Frames = 3
INVARIANTS PBReconstructs PBIdempotent PBScaleFree PBForms MDPOptimal MDPOrthogonal MDPIdempotent MDPScaleFree
CHECK_DEADLOCK FALSE
