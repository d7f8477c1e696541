CONSTANTS
  MaxReq = 1
  KeyS <- SpeechKey
  KeyM <- RoomKey
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
