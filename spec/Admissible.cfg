CONSTANTS
  Wide = FALSE
SPECIFICATION ASpec
INVARIANTS NothingUnsupportedComputed NothingSupportedRefused Consistent
PROPERTY Exact
CHECK_DEADLOCK FALSE
