SPECIFICATION GSpec
CONSTANTS Cases = 120
