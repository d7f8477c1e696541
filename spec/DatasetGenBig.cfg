CONSTANTS
  MaxReq = 1
  KeyS <- SpeechKey
  KeyM <- RoomKey
  Cases = 500
  MaxLen = 16
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
