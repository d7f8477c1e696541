CONSTANT Depth = 1
SPECIFICATION TSpec
