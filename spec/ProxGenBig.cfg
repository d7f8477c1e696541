SPECIFICATION GSpec
CONSTANTS Cases = 4000
