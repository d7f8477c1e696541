SPECIFICATION GSpec
CONSTANTS Cases = 160 MaxSide = 3 MaxE = 40
