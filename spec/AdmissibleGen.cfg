CONSTANTS
  Wide = FALSE
  Pairs = 700
  Triples = 1200
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
