SPECIFICATION MSpec
CONSTANTS MaxX = 6 MaxMu = 12
INVARIANTS Minimizer UniqueMinimizer Reaches LogRoot DetStationary
PROPERTIES Shrinks
