SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS WellFormed SameMethod
CHECK_DEADLOCK FALSE
