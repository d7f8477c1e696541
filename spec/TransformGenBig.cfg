SPECIFICATION GSpec
CONSTANTS Cases = 1500
