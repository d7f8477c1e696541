SPECIFICATION SSpec
CONSTANTS
  Entries <- ThreeEntries
  Sizes <- ThreeSizes
  Samples <- OneSample
  Frames = 3
INVARIANTS PBReconstructs PBIdempotent PBScaleFree PBForms MDPOptimal MDPOrthogonal MDPIdempotent MDPScaleFree
CHECK_DEADLOCK FALSE
