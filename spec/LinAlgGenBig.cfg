SPECIFICATION GSpec
CONSTANTS Cases = 4200 Steps = 4
