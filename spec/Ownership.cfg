SPECIFICATION Spec
CONSTANTS
  Buffers = {1, 2, 3, 4, 5, 6, 7}
  Objects = {1, 2}
  MaxOps = 5
INVARIANTS CallerSafe InputPrivate
CHECK_DEADLOCK FALSE
