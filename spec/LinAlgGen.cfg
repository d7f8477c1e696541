SPECIFICATION GSpec
CONSTANTS Cases = 420 Steps = 3
