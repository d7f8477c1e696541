CONSTANTS
  MaxReq = 1
  KeyS <- SpeechKey
  KeyM <- RoomKey
  Cases = 60
  MaxLen = 9
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
