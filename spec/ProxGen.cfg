SPECIFICATION GSpec
CONSTANTS Cases = 240
