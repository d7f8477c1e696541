SPECIFICATION Spec
CONSTANTS
  MaxFrames = 2
  Rates = {8000, 44100}
INVARIANTS WellFormed Roundtrip WriteReadWrite
CHECK_DEADLOCK FALSE
