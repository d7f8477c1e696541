CONSTANTS
  Wide = TRUE
SPECIFICATION ASpec
INVARIANTS NothingUnsupportedComputed NothingSupportedRefused Consistent
PROPERTY Exact
CHECK_DEADLOCK FALSE
