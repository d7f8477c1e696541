CONSTANTS
  Wide = FALSE
  Pairs = 3000
  Triples = 9000
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
