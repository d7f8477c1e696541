SPECIFICATION OSpec
CONSTANTS
  Mixtures <- SomeMixtures
  Moves <- SomeMoves
  MaxUpdates = 2
INVARIANTS ReturnedIsApplied FilterIsTheMap SignalInStep Invertible
CHECK_DEADLOCK FALSE
