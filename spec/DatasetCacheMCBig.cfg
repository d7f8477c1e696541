CONSTANTS
  MaxReq = 3
  KeyS <- SpeechKey
  KeyM <- RoomKey
SPECIFICATION Spec
INVARIANTS OnlyTheRequest Faithful OneFilePerName WarmAnswers
CHECK_DEADLOCK FALSE
