SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS WellFormed SameMethod Reversible
CHECK_DEADLOCK FALSE
