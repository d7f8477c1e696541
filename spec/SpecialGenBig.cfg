SPECIFICATION GSpec
CONSTANTS Cases = 900 MaxSide = 4 MaxE = 200
